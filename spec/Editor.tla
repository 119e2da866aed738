------------------------------- MODULE Editor -------------------------------
(***************************************************************************)
(* The editor of hachoir (hachoir/editor): an editable copy of a parsed    *)
(* tree, edited by values, removals and insertions, then written.          *)
(*                                                                         *)
(* The document is a sequence of nodes.  A leaf:                           *)
(*   nm, k (int, bits, char, time, bytes, str, float, other), sgn, en (byte*)
(*   order), b (its bits in stream order), fmt/cs/bom (strings), v (value  *)
(*   assigned), ins (inserted), alt (value assigned or new)                *)
(* A set: nm, k = "set", ins, en, ch.                                      *)
(* Values: [t |-> int|time, neg, m (magnitude bits, most significant       *)
(* first)], [t |-> char, c], [t |-> bytes|text, d], [t |-> float, neg, m,  *)
(* x]: +-1.m * 2^x, [t |-> bad]: of a type no field accepts.               *)
(***************************************************************************)
EXTENDS OutStream, Strings

Flip(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Byte8(x) == [i \in 1..8 |-> (x \div (2^(8 - i))) % 2]
BytesB(d, en) == FlattenSeq([i \in 1..Len(d) |-> IF en = "BE" THEN Byte8(d[i]) ELSE Flip(Byte8(d[i]))])
NBits(x, n) == [i \in 1..n |-> (x \div (2^(n - i))) % 2]
Total(q) == FoldSeq(LAMBDA x, acc : acc + x, 0, q)

IsSet(x) == x.k = "set"
Bytewise(x) == x.k \in {"bytes", "str", "float"}
RECURSIVE Size(_)
Size(x) == IF IsSet(x) THEN Total([i \in 1..Len(x.ch) |-> Size(x.ch[i])]) ELSE Len(x.b)
SizeAll(ch) == Total([i \in 1..Len(ch) |-> Size(ch[i])])
RECURSIVE Leaves(_)
Leaves(ch) == IF ch = <<>> THEN <<>>
  ELSE LET x == Head(ch) IN (IF IsSet(x) THEN Leaves(x.ch) ELSE <<x>>) \o Leaves(Tail(ch))

---------------------------------------------------------------------------
(* The original document: items with their sizes, over source bytes        *)
RECURSIVE ItemSize(_)
ItemSize(it) == IF it.k = "set" THEN Total([i \in 1..Len(it.ch) |-> ItemSize(it.ch[i])]) ELSE it.w
Sofar(its, i) == Total([j \in 1..(i - 1) |-> ItemSize(its[j])])
None == [t |-> "none"]
RECURSIVE Build(_, _, _, _)
Build(its, src, a, en) == [i \in 1..Len(its) |->
  LET it == its[i]
      p == a + Sofar(its, i)
  IN IF it.k = "set"
     THEN [nm |-> it.nm, k |-> "set", ins |-> FALSE, en |-> it.en, ch |-> Build(it.ch, src, p, it.en)]
     ELSE [nm |-> it.nm, k |-> it.k, ins |-> FALSE, alt |-> FALSE, sgn |-> it.sgn, en |-> en,
           fmt |-> it.fmt, cs |-> it.cs, bom |-> it.bom, v |-> None,
           b |-> WriteOrder(BitsOf(src, p, it.w, en), en)]]

---------------------------------------------------------------------------
(* Encoding of values                                                      *)
EncodeText(d, cs, en) ==
  CASE cs = "UTF-8" -> [ok |-> TRUE, d |-> FlattenSeq([i \in 1..Len(d) |->
         LET c == d[i] IN
         IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
         ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>])]
    [] cs \in {"UTF-16-LE", "UTF-16-BE"} -> [ok |-> TRUE, d |-> FlattenSeq([i \in 1..Len(d) |->
         IF cs = "UTF-16-BE" THEN <<d[i] \div 256, d[i] % 256>> ELSE <<d[i] % 256, d[i] \div 256>>])]
    [] cs = "ASCII" -> [ok |-> \A i \in 1..Len(d) : d[i] < 128, d |-> d]
    [] OTHER -> [ok |-> \A i \in 1..Len(d) : d[i] < 256, d |-> d]

IntBytes(n, k, en) == LET b == [i \in 1..k |-> (n \div (256^(k - i))) % 256]
                      IN IF en = "BE" THEN b ELSE Flip(b)
Cannot == [ok |-> FALSE, b |-> <<>>]
Can(b) == [ok |-> TRUE, b |-> b]
\* content, then the whole string: prefix, byte order mark, content, terminator
EncodeStr(x, v) ==
  LET c == IF v.t = "bytes" THEN [ok |-> TRUE, d |-> v.d] ELSE EncodeText(v.d, x.cs, x.en)
      d == x.bom \o c.d
      pre == Prefix(x.fmt)
      suf == IF x.fmt \in {"C", "UnixLine"} THEN Suffix(x.fmt, x.cs, x.en) ELSE <<>>
  IN IF ~c.ok \/ (pre = 1 /\ Len(d) > 255) \/ (pre = 2 /\ Len(d) > 65535) THEN Cannot
     ELSE Can(BytesB(IntBytes(Len(d), pre, x.en) \o d \o suf, x.en))
EncodeFloat(x, v) ==
  LET n == Len(x.b)
      xb == IF n = 32 THEN 8 ELSE 11
      bias == (2^(xb - 1)) - 1
      f == <<IF v.neg THEN 1 ELSE 0>> \o NBits(v.x + bias, xb)
           \o [i \in 1..(n - xb - 1) |-> IF i <= Len(v.m) THEN v.m[i] ELSE 0]
      d == Split(f, "BE")
  IN IF v.x > bias THEN Cannot
     ELSE Can(BytesB(IF x.en = "BE" THEN d ELSE Flip(d), x.en))
\* bits (in stream order) of the value v in the field x
EncodeIn(x, v) ==
  LET w == Len(x.b) IN
  CASE x.k \in {"int", "bits"} /\ v.t = "int" /\ Fits(v.neg, v.m, w, x.sgn) ->
         Can(WriteOrder(Encode(v.neg, v.m, w), x.en))
    [] x.k = "time" /\ v.t = "time" /\ Fits(v.neg, v.m, 32, FALSE) ->
         Can(WriteOrder(Encode(v.neg, v.m, 32), x.en))
    [] x.k = "char" /\ v.t = "char" /\ v.c < 256 -> Can(WriteOrder(Byte8(v.c), x.en))
    [] x.k = "bytes" /\ v.t = "bytes" /\ v.d # <<>> -> Can(BytesB(v.d, x.en))
    [] x.k = "str" /\ v.t \in {"bytes", "text"} -> EncodeStr(x, v)
    [] x.k = "float" /\ v.t = "float" -> EncodeFloat(x, v)
    [] OTHER -> Cannot
Assign(x, v) == [x EXCEPT !.b = EncodeIn(x, v).b, !.v = v, !.alt = TRUE]
\* value read back from a field never assigned
Read(x) ==
  CASE x.k \in {"int", "bits", "time"} ->
         LET q == WriteOrder(x.b, x.en)
             n == x.sgn /\ q[1] = 1
         IN [t |-> IF x.k = "time" THEN "time" ELSE "int", neg |-> n, m |-> Strip(IF n THEN Negate(q) ELSE q)]
    [] x.k = "char" -> [t |-> "char", c |-> ByteBE(WriteOrder(x.b, x.en))]
    [] x.k = "bytes" -> [t |-> "bytes", d |-> Split(IF x.en = "BE" THEN x.b
                           ELSE FlattenSeq([i \in 1..(Len(x.b) \div 8) |-> Flip(SubSeq(x.b, 8 * i - 7, 8 * i))]), "BE")]
    [] OTHER -> None
Value(x) == IF x.v # None THEN x.v ELSE Read(x)

---------------------------------------------------------------------------
(* Places.  A path is a sequence of names; the document itself is <<>>.    *)
Names(ch) == {ch[i].nm : i \in 1..Len(ch)}
Pos(ch, nm) == CHOOSE i \in 1..Len(ch) : ch[i].nm = nm
RECURSIVE Has(_, _)
Has(ch, p) == p = <<>> \/ /\ Head(p) \in Names(ch)
                          /\ LET x == ch[Pos(ch, Head(p))] IN
                             Tail(p) = <<>> \/ (IsSet(x) /\ Has(x.ch, Tail(p)))
RECURSIVE At_(_, _)
At_(ch, p) == LET x == ch[Pos(ch, Head(p))] IN IF Tail(p) = <<>> THEN x ELSE At_(x.ch, Tail(p))
HasSet(ch, p) == p = <<>> \/ (Has(ch, p) /\ IsSet(At_(ch, p)))
Children(ch, p) == IF p = <<>> THEN ch ELSE At_(ch, p).ch
RECURSIVE Replace_(_, _, _)
Replace_(ch, p, new) ==     \* the children of the set at p become `new'
  IF p = <<>> THEN new
  ELSE LET i == Pos(ch, Head(p)) IN [ch EXCEPT ![i].ch = Replace_(@, Tail(p), new)]
AddrIn(ch, nm) == SizeAll(SubSeq(ch, 1, Pos(ch, nm) - 1))
Up(p) == SubSeq(p, 1, Len(p) - 1)
Last_(p) == p[Len(p)]

\* every edit: the set of documents it may lead to; {} = the edit is refused
SetValue(ch, p, v) ==
  IF p = <<>> \/ ~Has(ch, p) THEN {}
  ELSE LET x == At_(ch, p)
           c == Children(ch, Up(p))
           i == Pos(c, Last_(p))
       IN IF IsSet(x) \/ ~EncodeIn(x, v).ok THEN {}
          ELSE {Replace_(ch, Up(p), [c EXCEPT ![i] = Assign(x, v)])}
Delete(ch, p) ==
  IF p = <<>> \/ ~Has(ch, p) THEN {}
  ELSE LET c == Children(ch, Up(p))
       IN {Replace_(ch, Up(p), SelectSeq(c, LAMBDA x : x.nm # Last_(p)))}
\* new nodes keep their order and stay together.  Right after the field named;
\* right before an inserted field; in front of an original field, somewhere
\* among the fields inserted there
Places(c, where, anchor) ==
  IF where = "end" THEN {Len(c)}
  ELSE IF anchor \notin Names(c) THEN {}
  ELSE LET i == Pos(c, anchor) IN
       IF where = "after" THEN {i}
       ELSE IF c[i].ins THEN {i - 1}
       ELSE {j \in 0..(i - 1) : \A k \in (j + 1)..(i - 1) : c[k].ins}
Insert(ch, p, where, anchor, new) ==
  IF ~HasSet(ch, p) THEN {}
  ELSE LET c == Children(ch, p)
           nn == [i \in 1..Len(new) |-> new[i].nm]
       IN IF Cardinality({nn[i] : i \in 1..Len(nn)}) # Len(nn)
             \/ \E i \in 1..Len(nn) : nn[i] \in Names(c) THEN {}
          ELSE {Replace_(ch, p, SubSeq(c, 1, j) \o new \o SubSeq(c, j + 1, Len(c)))
                  : j \in Places(c, where, anchor)}

\* a new node from its description (w bits, value v), in a set of byte order en
RECURSIVE Makeable(_, _), Make(_, _)
Blank(n, en) == [nm |-> n.nm, k |-> n.k, ins |-> TRUE, alt |-> TRUE, sgn |-> n.sgn, en |-> en,
                 fmt |-> n.fmt, cs |-> n.cs, bom |-> <<>>, v |-> None,
                 b |-> [i \in 1..n.w |-> 0]]
Makeable(n, en) == IF n.k = "set" THEN \A i \in 1..Len(n.ch) : Makeable(n.ch[i], en)
                   ELSE EncodeIn(Blank(n, en), n.v).ok
Make(n, en) == IF n.k = "set"
               THEN [nm |-> n.nm, k |-> "set", ins |-> TRUE, en |-> en,
                     ch |-> [i \in 1..Len(n.ch) |-> Make(n.ch[i], en)]]
               ELSE Assign(Blank(n, en), n.v)

---------------------------------------------------------------------------
(* Writing: the leaves one after the other.  st: ok; no - a value made of  *)
(* whole bytes would begin inside a byte, which is refused; mix - bits of  *)
(* both byte orders in one byte (or an empty value there): not specified   *)
RECURSIVE Put(_, _)
Put(acc, ls) ==
  IF ls = <<>> \/ acc.st # "ok" THEN acc
  ELSE LET x == Head(ls) IN
       IF x.b = <<>> THEN IF acc.o.pend # <<>> /\ Bytewise(x) /\ x.alt
                          THEN [acc EXCEPT !.st = "mix"] ELSE Put(acc, Tail(ls))
       ELSE IF acc.o.pend # <<>> /\ acc.o.en # x.en THEN [acc EXCEPT !.st = "mix"]
       ELSE IF acc.o.pend # <<>> /\ Bytewise(x) /\ x.alt THEN [acc EXCEPT !.st = "no"]
       ELSE Put([acc EXCEPT !.o = PutBits(acc.o, WriteOrder(x.b, x.en), x.en)], Tail(ls))
Written(ch) ==
  LET r == Put([st |-> "ok", o |-> OutInit], Leaves(ch))
      k == Len(r.o.pend)
  IN [st |-> r.st, d |-> IF k = 0 THEN r.o.out
                         ELSE PutBits(r.o, [i \in 1..(8 - k) |-> 0], r.o.en).out]
=============================================================================
