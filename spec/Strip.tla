------------------------------- MODULE Strip -------------------------------
(***************************************************************************)
(* hachoir-strip (hachoir/strip.py): which parts of a document go for a    *)
(* selection of kinds, and what the file becomes.                          *)
(* level: a set of {"useless", "metadata", "index"}                        *)
(* Documents, bytes being 0..255:                                          *)
(*  riff [fmt, type (4 bytes), ch, tail]  chunk [tag, sub, ch, d]          *)
(*  png  [fmt, ch]                        chunk [tag, d, crc]              *)
(*  jpeg [fmt, ch]                        segment [type, d]                *)
(*  mp3  [fmt, v2, frames, v1]            (<<>>: absent)                   *)
(*  au   [fmt, head (16 bytes from data size on), info, audio]             *)
(*  tar  [fmt, ch, tail]                  entry [h (512 bytes), d]         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
BE4(n) == Reverse(LE4(n))
BE2(n) == <<n \div 256, n % 256>>
Cat(q) == FlattenSeq(q)

\* four characters codes used below
JUNK == <<74, 85, 78, 75>>
LIST == <<76, 73, 83, 84>>
INFO == <<73, 78, 70, 79>>
MOVI == <<109, 111, 118, 105>>
HDRL == <<104, 100, 114, 108>>
AVIH == <<97, 118, 105, 104>>
FACT == <<102, 97, 99, 116>>
IDX1 == <<105, 100, 120, 49>>
WAVE == <<87, 65, 86, 69>>
AVI_ == <<65, 86, 73, 32>>
TEXT == <<116, 69, 88, 116>>
TIME == <<116, 73, 77, 69>>
EXIF == <<69, 120, 105, 102, 0, 0>>
RIFF == <<82, 73, 70, 70>>
SND  == <<46, 115, 110, 100>>
PNG  == <<137, 80, 78, 71, 13, 10, 26, 10>>

---------------------------------------------------------------------------
(* RIFF: little endian sizes of the chunks, of their lists and of the file *)
RECURSIVE Chunk(_)
Body(c) == IF c.tag = LIST THEN c.sub \o Cat([i \in 1..Len(c.ch) |-> Chunk(c.ch[i])]) ELSE c.d
Chunk(c) == LET b == Body(c) IN
            c.tag \o LE4(Len(b)) \o b \o (IF Len(b) % 2 = 1 THEN <<0>> ELSE <<>>)
\* (a kind of part is known by its tag in the type of file where it is known)
Goes(c, type, level) ==
  \/ "useless" \in level /\ (c.tag = JUNK \/ (c.tag = FACT /\ type = WAVE))
  \/ "metadata" \in level /\ c.tag = LIST /\ c.sub = INFO
  \/ "index" \in level /\ c.tag = IDX1 /\ type = AVI_
RECURSIVE StripCh(_, _, _)
StripCh(ch, type, level) ==
  LET keep == SelectSeq(ch, LAMBDA c : ~Goes(c, type, level))
  IN [i \in 1..Len(keep) |->
        IF keep[i].tag = LIST /\ keep[i].sub # MOVI
        THEN [keep[i] EXCEPT !.ch = StripCh(@, type, level)] ELSE keep[i]]
\* the header of a video does not announce an index which is gone: bit 4 of
\* the flags, in byte 12 of the first main header
NoIndex(ch) ==
  LET H == {i \in 1..Len(ch) : ch[i].tag = LIST /\ ch[i].sub = HDRL}
  IN IF H = {} THEN ch
     ELSE LET h == CHOOSE i \in H : \A j \in H : i <= j
              A == {i \in 1..Len(ch[h].ch) : ch[h].ch[i].tag = AVIH}
          IN IF A = {} THEN ch
             ELSE LET a == CHOOSE i \in A : \A j \in A : i <= j
                      x == ch[h].ch[a].d[13]
                  IN [ch EXCEPT ![h].ch[a].d[13] = IF (x \div 16) % 2 = 1 THEN x - 16 ELSE x]

---------------------------------------------------------------------------
(* TAR: the owner and the time of every file are blanked, its checksum     *)
(* follows (the sum of the header, the checksum itself counted as spaces)  *)
Zeros(n) == [i \in 1..n |-> 0]
Oct(n) == [i \in 1..n |-> 48]
Put_(h, a, d) == SubSeq(h, 1, a) \o d \o SubSeq(h, a + Len(d) + 1, Len(h))
Blank_(h) == Put_(Put_(Put_(Put_(Put_(h, 108, Oct(7) \o <<0>>), 116, Oct(7) \o <<0>>),
                   136, Oct(11) \o <<0>>), 265, Zeros(32)), 297, Zeros(32))
SumOf(h) == FoldSeq(LAMBDA x, acc : acc + x, 0, Put_(h, 148, [i \in 1..8 |-> 32]))
\* number written in octal digits, spaces and zero bytes around them
RECURSIVE Octal(_, _)
Octal(q, acc) == IF q = <<>> THEN acc
                 ELSE IF Head(q) \in 48..55 THEN Octal(Tail(q), acc * 8 + Head(q) - 48)
                 ELSE IF acc = 0 /\ Head(q) = 32 THEN Octal(Tail(q), acc)
                 ELSE IF \A i \in 1..Len(q) : q[i] \in {0, 32} THEN acc ELSE -1
Checksum(h) == Octal(SubSeq(h, 149, 156), 0)
FillTo512(d) == d \o Zeros((512 - (Len(d) % 512)) % 512)

---------------------------------------------------------------------------
Bytes_(t) ==
  CASE t.fmt = "riff" ->
         LET b == Cat([i \in 1..Len(t.ch) |-> Chunk(t.ch[i])])
         IN RIFF \o LE4(4 + Len(b)) \o t.type \o b \o t.tail
    [] t.fmt = "png" -> PNG \o Cat([i \in 1..Len(t.ch) |->
         LET c == t.ch[i] IN BE4(Len(c.d)) \o c.tag \o c.d \o c.crc])
    [] t.fmt = "jpeg" -> <<255, 216>> \o Cat([i \in 1..Len(t.ch) |->
         LET c == t.ch[i] IN <<255, c.type>> \o BE2(Len(c.d) + 2) \o c.d]) \o <<255, 217>>
    [] t.fmt = "mp3" -> t.v2 \o t.frames \o t.v1
    [] t.fmt = "au" -> SND \o BE4(24 + Len(t.info)) \o t.head \o t.info \o t.audio
    [] t.fmt = "tar" -> Cat([i \in 1..Len(t.ch) |-> t.ch[i].h \o FillTo512(t.ch[i].d)]) \o t.tail

Stripped(t, level) ==
  LET m == "metadata" \in level IN
  CASE t.fmt = "riff" ->
         LET c == StripCh(t.ch, t.type, level) IN
         IF c = t.ch THEN t
         ELSE [t EXCEPT !.ch = IF "index" \in level /\ t.type = AVI_ THEN NoIndex(c) ELSE c]
    [] t.fmt = "png" -> [t EXCEPT !.ch = SelectSeq(@, LAMBDA c : ~(m /\ c.tag \in {TEXT, TIME}))]
    [] t.fmt = "jpeg" -> [t EXCEPT !.ch = SelectSeq(@, LAMBDA c : ~(m /\
         (c.type \in {254, 237, 238} \/ (c.type = 225 /\ Len(c.d) >= 6 /\ SubSeq(c.d, 1, 6) = EXIF))))]
    [] t.fmt = "mp3" -> IF m THEN [t EXCEPT !.v2 = <<>>, !.v1 = <<>>] ELSE t
    [] t.fmt = "au" -> IF m THEN [t EXCEPT !.info = <<>>] ELSE t
    [] t.fmt = "tar" -> IF m THEN [t EXCEPT !.ch = [i \in 1..Len(@) |-> [@[i] EXCEPT !.h = Blank_(@)]]] ELSE t

\* out is what the document t is written as (checksums of a stripped tar may
\* be written in any way octal numbers are)
Renders(out, t, fixed) ==
  IF t.fmt # "tar" \/ ~fixed THEN out = Bytes_(t)
  ELSE LET w == Bytes_(t)
           Off(i) == FoldSeq(LAMBDA x, acc : acc + 512 + Len(FillTo512(x.d)), 0, SubSeq(t.ch, 1, i - 1))
           Hide(q) == FoldSeq(LAMBDA i, acc : Put_(acc, Off(i) + 148, Zeros(8)), q,
                              [i \in 1..Len(t.ch) |-> i])
       IN /\ Len(out) = Len(w)
          /\ Hide(out) = Hide(w)
          /\ \A i \in 1..Len(t.ch) : LET h == SubSeq(out, Off(i) + 1, Off(i) + 512)
                                     IN Checksum(h) = SumOf(h)

\* sizes of the top level parts, as the parser finds them
Sizes(t) ==
  CASE t.fmt = "riff" -> <<4, 4, 4>> \o [i \in 1..Len(t.ch) |-> Len(Chunk(t.ch[i]))]
                         \o (IF t.tail = <<>> THEN <<>> ELSE <<Len(t.tail)>>)
    [] t.fmt = "png" -> <<8>> \o [i \in 1..Len(t.ch) |-> 12 + Len(t.ch[i].d)]
    [] t.fmt = "jpeg" -> <<2>> \o [i \in 1..Len(t.ch) |-> 4 + Len(t.ch[i].d)] \o <<2>>
    [] t.fmt = "mp3" -> SelectSeq(<<Len(t.v2), Len(t.frames), Len(t.v1)>>, LAMBDA n : n > 0)
    [] t.fmt = "au" -> <<4, 4, 4, 4, 4, 4>> \o SelectSeq(<<Len(t.info), Len(t.audio)>>, LAMBDA n : n > 0)
    [] t.fmt = "tar" -> [i \in 1..Len(t.ch) |-> 512 + Len(FillTo512(t.ch[i].d))] \o <<512>>
                        \o (IF Len(t.tail) = 512 THEN <<>> ELSE <<Len(t.tail) - 512>>)
=============================================================================
