-------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* What embedded data is (F07), as a function of the document which embeds *)
(* it.  A document t is                                                    *)
(*   src   the bytes of the file                                           *)
(*   fat   next cluster of each cluster (file systems), else <<>>          *)
(*   doc   its items, in the order in which they are parsed:               *)
(*     k     "win"   a field or sub-file: the bytes of its own window      *)
(*           "frag"  fragment of a chain: data window, index of the first  *)
(*                   fragment of its chain and of the next one (0: none)   *)
(*           "cf"    member of a group of fragments (fst: first member)    *)
(*           "file"  file of a FAT: first cluster, size                    *)
(*           "ogg"   page of a logical stream (serial, last page or not)   *)
(*     a, z  own window; da, dz data window (bytes)                        *)
(*     codec "" stored, "rep" toy code, "given": plain is in the item      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Window(t, a, z) == SubSeq(t.src, a + 1, a + z)
RECURSIVE ChainWindows(_, _)
ChainWindows(t, i) == \* from fragment i on
  IF i = 0 THEN <<>>
  ELSE <<Window(t, t.doc[i].da, t.doc[i].dz)>> \o ChainWindows(t, t.doc[i].nxt)
RECURSIVE Clusters(_, _)
Clusters(t, c) == \* data clusters are 2, 3, ...; anything else ends the chain
  IF c \in 2..(Len(t.fat) + 1) THEN <<c>> \o Clusters(t, t.fat[c - 1]) ELSE <<>>
FatData(t, it) ==
  LET cs == Clusters(t, it.nxt)
      d == FlattenSeq([j \in 1..Len(cs) |-> Window(t, it.da + (cs[j] - 2) * it.dz, it.dz)])
  IN SubSeq(d, 1, it.z)
\* pages of the logical stream of page i, up to its last one
OggPages(t, i) ==
  LET q == SelectSeq([j \in 1..Len(t.doc) |-> j],
                     LAMBDA j : t.doc[j].k = "ogg" /\ t.doc[j].fst = t.doc[i].fst)
      ends == {j \in 1..Len(q) : t.doc[q[j]].nxt = 0}
  IN IF ends = {} THEN q ELSE SubSeq(q, 1, CHOOSE j \in ends : \A m \in ends : j <= m)
OggData(t, i) == LET q == OggPages(t, i)
                 IN FlattenSeq([j \in 1..Len(q) |-> Window(t, t.doc[q[j]].da, t.doc[q[j]].dz)])
\* stored bytes of item i when cnt items have been parsed
Stored(t, i, cnt) ==
  LET it == t.doc[i] IN
  CASE it.k = "win"  -> Window(t, it.a, it.z)
    [] it.k = "frag" -> IF it.fst = i THEN FlattenSeq(ChainWindows(t, i)) ELSE Window(t, it.a, it.z)
    [] it.k = "cf"   -> FlattenSeq([j \in 1..cnt |->
                          IF t.doc[j].k = "cf" /\ t.doc[j].fst = it.fst
                          THEN Window(t, t.doc[j].a, t.doc[j].z) ELSE <<>>])
    [] it.k = "file" -> FatData(t, it)
    [] it.k = "ogg"  -> IF OggPages(t, i)[1] = i THEN OggData(t, i) ELSE Window(t, it.a, it.z)
Rep(d) == FlattenSeq([i \in 1..Len(d) |-> [j \in 1..(d[i] % 4) |-> d[i]]])
Content(t, i, cnt) ==
  LET it == t.doc[i] IN
  CASE it.codec = ""    -> Stored(t, i, cnt)
    [] it.codec = "rep" -> Rep(Stored(t, i, cnt))
    [] OTHER            -> it.plain

\* children of a fragment: the links stand before the field at which the
\* parser announced them
LinksOf(t, i) == (IF t.doc[i].fst # i THEN <<"first">> ELSE <<>>)
                 \o (IF t.doc[i].nxt # 0 THEN <<"next">> ELSE <<>>)
KidsOf(t, i) == SubSeq(t.doc[i].kids, 1, t.doc[i].late) \o LinksOf(t, i)
                \o SubSeq(t.doc[i].kids, t.doc[i].late + 1, Len(t.doc[i].kids))
LinkTarget(t, i, nm) == IF nm = "first" THEN t.doc[i].fst ELSE t.doc[i].nxt
=============================================================================
