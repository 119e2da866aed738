------------------------------ MODULE StripMC ------------------------------
(* All small documents of every kind, stripped any number of times with any *)
(* selection of levels: what goes, what stays, sizes, idempotence, order.   *)
EXTENDS Strip, TLC
CONSTANT Deep
VARIABLES orig, doc, done

Levels == SUBSET {"useless", "metadata", "index"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Leaf(tag, d) == [tag |-> tag, sub |-> <<>>, ch |-> <<>>, d |-> d]
List(sub, ch) == [tag |-> LIST, sub |-> sub, ch |-> ch, d |-> <<>>]
Leaves == {Leaf(JUNK, <<1>>), Leaf(FACT, <<1, 2>>), Leaf(IDX1, <<>>),
           Leaf(<<100, 97, 116, 97>>, <<7, 8, 9>>)}
Avih(x) == Leaf(AVIH, [i \in 1..14 |-> IF i = 13 THEN x ELSE 0])
Inner == SeqsUpTo({Leaf(JUNK, <<1>>), Leaf(FACT, <<1>>)}, 2)
Lists == {List(INFO, <<>>), List(INFO, <<Leaf(JUNK, <<5>>)>>),
          List(HDRL, <<Avih(16)>>), List(HDRL, <<Leaf(JUNK, <<>>), Avih(48)>>)}
         \cup {List(HDRL, <<List(INFO, <<>>)>>), List(MOVI, <<Leaf(JUNK, <<3>>)>>)}
         \cup (IF Deep THEN {List(HDRL, c) : c \in Inner} ELSE {})
RiffDocs == {[fmt |-> "riff", type |-> ty, ch |-> c, tail |-> tl] :
             ty \in {WAVE, AVI_}, c \in SeqsUpTo(Leaves \cup Lists, IF Deep THEN 4 ELSE 3),
             tl \in {<<>>, <<9, 9>>}}
PngDocs == {[fmt |-> "png", ch |-> c] : c \in SeqsUpTo(
             {[tag |-> g, d |-> <<1>>, crc |-> <<0, 0, 0, 1>>] : g \in {TEXT, TIME, <<73, 69, 78, 68>>}}, 4)}
JpegDocs == {[fmt |-> "jpeg", ch |-> c] : c \in SeqsUpTo(
             {[type |-> ty, d |-> d] : ty \in {254, 237, 238, 225, 219}, d \in {<<4>>, EXIF}}, 3)}
Mp3Docs == {[fmt |-> "mp3", v2 |-> a, frames |-> b, v1 |-> c] : a, c \in {<<>>, <<3, 4>>}, b \in {<<>>, <<5>>}}
AuDocs == {[fmt |-> "au", head |-> [i \in 1..16 |-> i], info |-> a, audio |-> b] :
             a \in {<<>>, <<3, 4, 5, 6>>}, b \in {<<>>, <<5, 5>>}}
Hdr(u, c) == Put_(Put_(Zeros(512), 108, u), 148, c)
TarDocs == {[fmt |-> "tar", ch |-> c, tail |-> Zeros(1024)] : c \in SeqsUpTo(
             {[h |-> Hdr(u, c), d |-> d] : u \in {Oct(7), <<49, 55>>},
              c \in {<<48, 48, 55, 55, 0, 32>>}, d \in {<<>>, <<1, 2>>}}, 2)}
Docs == RiffDocs \cup PngDocs \cup JpegDocs \cup Mp3Docs \cup AuDocs \cup TarDocs

Init == orig \in Docs /\ doc = orig /\ done = {}
Next == \E l \in SUBSET {"useless", "metadata", "index"} :
          /\ l # {}
          /\ doc' = Stripped(doc, l) /\ done' = done \cup l /\ UNCHANGED orig
Spec == Init /\ [][Next]_<<orig, doc, done>>

---------------------------------------------------------------------------
Idem == \A l \in Levels : LET n == Stripped(doc, l) IN Stripped(n, l) = n
\* what was selected in any steps and order is gone: the result depends on the
\* union only, except for the flag of the index, which is cleared when asked
\* for in a step which removes something
NoFlag(t) == IF t.fmt = "riff" THEN [t EXCEPT !.ch = NoIndex(t.ch)] ELSE t
Union_ == NoFlag(doc) = NoFlag(Stripped(orig, done))
RECURSIVE Flat(_)
Flat(ch) == Cat([i \in 1..Len(ch) |-> <<[tag |-> ch[i].tag, sub |-> ch[i].sub, d |-> ch[i].d]>> \o
                  (IF ch[i].tag = LIST /\ ch[i].sub # MOVI THEN Flat(ch[i].ch) ELSE <<>>)])
IsSubSeq(a, b) == \E f \in [1..Len(a) -> 1..Len(b)] :
                    /\ \A i, j \in 1..Len(a) : i < j => f[i] < f[j]
                    /\ \A i \in 1..Len(a) : a[i] = b[f[i]]
\* nothing is invented or moved; nothing selected stays
Rest == CASE doc.fmt \in {"png", "jpeg"} ->
               /\ \E keep \in SUBSET (1..Len(orig.ch)) :
                    doc.ch = SelectSeq([i \in 1..Len(orig.ch) |-> IF i \in keep THEN orig.ch[i] ELSE [tag |-> 0, type |-> 0]],
                                       LAMBDA c : "d" \in DOMAIN c)
               /\ "metadata" \notin done => doc = orig
          [] doc.fmt = "riff" ->
               LET a == Flat(NoIndex(doc.ch)) b == Flat(NoIndex(orig.ch)) IN
               /\ Len(a) <= Len(b)
               /\ \A x \in {a[i] : i \in 1..Len(a)} :
                    Cardinality({i \in 1..Len(a) : a[i] = x}) <= Cardinality({i \in 1..Len(b) : b[i] = x})
               /\ \A i \in 1..Len(a) : ~("useless" \in done /\ a[i].tag = JUNK)
                                       /\ ~("metadata" \in done /\ a[i].tag = LIST /\ a[i].sub = INFO)
               /\ doc.tail = orig.tail /\ doc.type = orig.type
               /\ done = {} => doc = orig
          [] OTHER -> "metadata" \notin done => doc = orig
\* the sizes written are those of what is there: reading the bytes again finds
\* the parts of the document
SumSeq(q) == FoldSeq(LAMBDA x, acc : acc + x, 0, q)
LE(b, k) == b[k] + 256 * b[k + 1] + 65536 * b[k + 2] + 16777216 * b[k + 3]
RECURSIVE Walk(_, _)
Walk(b, k) == IF k > Len(b) THEN <<>>
              ELSE LET n == LE(b, k + 4) + 8 m == n + (n % 2)
                   IN IF m > Len(b) - k + 1 THEN <<-1>> ELSE <<m>> \o Walk(b, k + m)
ReRead == LET b == Bytes_(doc) IN
          /\ Len(b) = SumSeq(Sizes(doc)) + (IF doc.fmt = "tar" /\ Len(doc.tail) < 1024 THEN Len(doc.tail) - 512 ELSE 0)
          /\ doc.fmt = "riff" =>
               LET n == LE(b, 5)
               IN /\ n + 8 = Len(b) - Len(doc.tail)
                  /\ Walk(SubSeq(b, 13, n + 8), 1) = [i \in 1..Len(doc.ch) |-> Len(Chunk(doc.ch[i]))]
          /\ doc.fmt = "tar" /\ "metadata" \in done =>
               \A i \in 1..Len(doc.ch) : SubSeq(doc.ch[i].h, 109, 115) = Oct(7) /\ doc.ch[i].d = orig.ch[i].d
Inv == Idem /\ Union_ /\ Rest /\ ReRead
=============================================================================
