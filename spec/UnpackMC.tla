------------------------------ MODULE UnpackMC ------------------------------
(***************************************************************************)
(* A packer writes a text, a receiver gets its bits one by one.  Checked:    *)
(* what was given out is always the beginning of the text, and at the end    *)
(* all of it, wherever the tokens, the blocks and the bytes begin.           *)
(***************************************************************************)
EXTENDS Packers, Json
CONSTANTS Types, LzxTypes, Most, Sels, Levels, Part, Export

VARIABLES doc, bits, i, r
vars == <<doc, bits, i, r>>

Abc == <<97, 98, 99>>
Fox == <<84, 104, 101, 32, 102, 111, 120, 232, 0, 255, 10, 13>>
\* tokens which make sense anywhere
Texts == <<Lits(Abc) \o <<Match(5, 1), Match(3, 2), Match(6, 8), Lit(255)>>,
           Lits(Fox),
           <<Lit(0), Match(258, 1), Lit(1), Match(258, 1), Match(257, 2), Match(13, 500), Match(227, 513), Match(3, 25)>>,
           <<Lit(144), Lit(143), Lit(200), Match(3, 3), Match(4, 1), Match(10, 3), Match(11, 3), Match(12, 4), Match(66, 5), Match(130, 7), Match(131, 96), Match(35, 97), Match(19, 32)>>,
           Lits(<<97>>),
           Lits(Abc \o Fox \o Abc) \o <<Match(3, 3), Match(3, 15), Match(4, 16), Match(115, 17), Match(34, 24)>>>>
Texts0 == <<Abc, Fox, <<7>>, Abc \o Abc>>
Blk(ty, t, p) == [type |-> ty, toks |-> IF ty = 0 THEN (IF p.empty THEN <<>> ELSE Lits(Texts0[1 + (t % 4)])) ELSE Texts[1 + (t % 6)],
                  flat |-> p.flat, cross |-> p.cross, spare |-> p.spare, fill |-> IF p.flat THEN 1 ELSE 0]
Shapes == {[flat |-> f, cross |-> c, spare |-> s, empty |-> FALSE] : f \in BOOLEAN, c \in BOOLEAN, s \in {0, 20}}
          \cup {[flat |-> TRUE, cross |-> FALSE, spare |-> 0, empty |-> TRUE]}
\* the shapes matter where a block has the type
Fits(tys, p) == /\ p.empty => 0 \in ToSet(tys)
                /\ p.spare > 0 \/ p.cross \/ ~p.flat => 2 \in ToSet(tys)
Blocks(tys, sel, p) == [k \in 1..Len(tys) |-> Blk(tys[k], sel + k, p)]
FitDeflates == UNION {{Blocks(tys, sel, p) : sel \in Sels, p \in {p \in Shapes : Fits(tys, p)}} : tys \in UNION {[1..n -> Types] : n \in 1..Most}}

LzxTexts == <<Lits(Abc) \o <<Match(5, 1), Back(2, 0), Match(3, 2), Back(9, 1), Lit(7), Back(4, 2), Back(3, 1), Match(6, 5)>>,
              Lits(Fox) \o <<Back(3, 0), Back(2, 1)>>,
              <<Lit(0), Match(257, 1), Lit(1), Lit(2), Match(200, 2), Match(8, 14), Match(9, 15), Match(10, 21), Match(12, 29), Match(16, 30), Match(30, 45), Match(33, 199), Match(7, 200), Back(5, 2), Match(100, 290), Back(2, 1)>>,
              Lits(<<97>>),
              <<Lit(144), Lit(143), Lit(200), Match(3, 3), Match(2, 4), Match(11, 6), Lit(9), Match(40, 13), Match(2, 37), Back(3, 2), Back(3, 2)>>>>
LzxRaw == <<Abc, Fox, <<7>>, Abc \o Abc>>
LzxBlk(ty, t, flat) == [type |-> ty, toks |-> IF ty = 3 THEN Lits(LzxRaw[1 + (t % 4)]) ELSE LzxTexts[1 + (t % 5)], flat |-> flat, r |-> <<1, 2, 1>>]
\* code behind calls: the operand is the target
Calling == <<Lits(<<1, 2, 232, 200, 0, 0, 0, 3, 232, 250, 255, 255, 255, 5>> \o <<232, 1, 2, 3, 4>> \o <<232, 232, 0, 0, 0, 144>> \o <<6, 232, 10, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>>),
             Lits(<<232, 0, 0, 0, 0, 232, 232, 3, 0, 0, 232, 231, 3, 0, 0, 232, 255, 255, 255, 255, 232, 0, 252, 255, 255, 1, 2, 3, 4, 5, 232, 1, 0, 0, 0>>)>>
LzxDocs == {[lev |-> lev, fs |-> 0, blocks |-> [k \in 1..Len(tys) |-> LzxBlk(tys[k], sel + k, flat)]] :
              lev \in Levels, sel \in Sels, flat \in BOOLEAN, tys \in UNION {[1..n -> LzxTypes] : n \in 1..Most}}
           \cup {[lev |-> lev, fs |-> fs, blocks |-> <<[type |-> ty, toks |-> Calling[c], flat |-> TRUE, r |-> <<1, 1, 1>>]>>] :
                   lev \in Levels, fs \in {0, 60, 1000}, ty \in LzxTypes, c \in 1..2}
\* those of this run
Chosen(docs) == LET all == SetToSeq(docs) IN {all[k] : k \in {k \in 1..Len(all) : (k * 7919) % Part = 0}}
Docs == {[codec |-> "deflate", b |-> x] : x \in Chosen(FitDeflates)}
Docs2 == {[codec |-> "lzx", b |-> x] : x \in Chosen(LzxDocs)}
Bytes(d) == IF d.codec = "deflate" THEN Deflated(d.b) ELSE Lzxed(d.b.lev, d.b.fs, d.b.blocks)
PlainOf(d) == IF d.codec = "deflate" THEN Plain(d.b) ELSE PlainLzx(d.b.blocks)
Lev(d) == IF d.codec = "deflate" THEN 0 ELSE d.b.lev

Start(d) == /\ doc = [codec |-> d.codec, lev |-> Lev(d), fs |-> IF d.codec = "lzx" THEN d.b.fs ELSE 0, text |-> PlainOf(d)]
            /\ LET bytes == Bytes(d)
               IN /\ bits = (IF Export THEN <<>> ELSE IF d.codec = "deflate" THEN LowFirst(bytes) ELSE WordBits(bytes))
                  /\ Export => PrintT("SCRIPT " \o ToJson([codec |-> d.codec, lev |-> Lev(d), bytes |-> bytes, size |-> Len(doc.text)]))
            /\ i = 0
            /\ r = IF d.codec = "deflate" THEN Inflater(<<>>) ELSE Unlzxer(d.b.lev)
Init == \/ \E d \in Docs : Start(d)
        \/ \E d \in Docs2 : Start(d)
Next == /\ ~Export /\ i < Len(bits)
        /\ i' = i + 1
        /\ r' = IF doc.codec = "deflate" THEN Inflate1(r, bits[i + 1]) ELSE Unlzx1(r, bits[i + 1])
        /\ UNCHANGED <<doc, bits>>
Spec == Init /\ [][Next]_vars

Beginning == Len(r.out) <= Len(doc.text) /\ r.out = SubSeq(doc.text, 1, Len(r.out))
Sound == r.m # "bad"
Whole == i = Len(bits) /\ bits # <<>> => r.out = doc.text /\ r.m \in (IF doc.codec = "deflate" THEN {"end"} ELSE {"btype", "fill"})
\* (only what fills up the last byte or word is behind the end)
NotEarly == (r.m = "end" => i > Len(bits) - 8) /\ (r.m = "fill" => i > Len(bits) - 16)
\* the jumps of a text are as many as before, and elsewhere nothing changes
Jumps == i = Len(bits) /\ doc.fs > 0 => /\ Len(Unlzxed(r)) = Len(doc.text)
                                         /\ \A k \in 1..Len(doc.text) : Unlzxed(r)[k] # doc.text[k] => \E j \in 1..4 : k > j /\ doc.text[k - j] = 232
=============================================================================
