------------------------------- MODULE Strings -------------------------------
(***************************************************************************)
(* String fields (F08): where a string ends, what its text is.             *)
(* Bytes are 0..255, texts are sequences of code points.                   *)
(* An item: [f (format), cs (charset, "" unknown), strip (0 no, 1 spaces,  *)
(* 2 the characters sch), trunc (text, <<>>: no), n (size of fixed)].      *)
(* maps: tables of the 8-bit charsets, maps[cs][b + 1] = code point or -1  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Unit(cs) == CASE cs \in {"UTF-16", "UTF-16-LE", "UTF-16-BE"} -> 2
              [] cs \in {"UTF-32", "UTF-32LE", "UTF-32BE"} -> 4
              [] OTHER -> 1
Utf == {"UTF-8", "UTF-16", "UTF-16-LE", "UTF-16-BE", "UTF-32", "UTF-32LE", "UTF-32BE"}
\* bytes [a, a+n) of src, or <<>> when they are not all there
At(src, a, n) == IF a + n <= Len(src) THEN SubSeq(src, a + 1, a + n) ELSE <<>>
BomLen(cs) == IF cs \in {"UTF-16", "UTF-32"} THEN Unit(cs) ELSE 0
\* charset told by the byte order mark at a ("": none)
Marked(src, a, cs) ==
  IF BomLen(cs) = 0 THEN cs
  ELSE LET b == At(src, a, BomLen(cs)) IN
    CASE b = <<255, 254>> -> "UTF-16-LE"
      [] b = <<254, 255>> -> "UTF-16-BE"
      [] b = <<255, 254, 0, 0>> -> "UTF-32LE"
      [] b = <<0, 0, 254, 255>> -> "UTF-32BE"
      [] OTHER -> ""
Big(cs, en) == CASE cs \in {"UTF-16-BE", "UTF-32BE"} -> TRUE
                 [] cs \in {"UTF-16-LE", "UTF-32LE"} -> FALSE
                 [] OTHER -> en = "BE"
Suffix(f, cs, en) ==
  LET u == Unit(cs)
      c == IF f = "C" THEN 0 ELSE 10
  IN [i \in 1..u |-> IF i = (IF Big(cs, en) THEN u ELSE 1) THEN c ELSE 0]
\* offset from a of the first terminator, at a multiple of the unit (-1: none)
Terminator(src, a, suf) ==
  LET u == Len(suf)
      S == {k \in 0..Len(src) : k % u = 0 /\ At(src, a + k, u) = suf}
  IN IF S = {} THEN -1 ELSE CHOOSE k \in S : \A j \in S : k <= j
Prefix(f) == CASE f = "Pascal8" -> 1 [] f = "Pascal16" -> 2 [] f = "Pascal32" -> 4 [] OTHER -> 0
Num(b, en) == LET q == IF en = "BE" THEN b ELSE [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
              IN FoldSeq(LAMBDA x, acc : IF acc > 100000 THEN acc ELSE acc * 256 + x, 0, q)

\* extent of the string at byte a: [ok, size, off (of the text), len, cs]
Bad == [ok |-> FALSE, size |-> 0, off |-> 0, len |-> 0, cs |-> ""]
Extent(src, a, it, en) ==
  LET pre == Prefix(it.f)
      pb == At(src, a, pre)
      cs == Marked(src, a + pre, it.cs)
      bom == BomLen(it.cs)
      marked == it.cs = "" \/ cs # ""
      suf == Suffix(it.f, cs, en)
      t == Terminator(src, a, suf)
      raw == CASE it.f = "fixed" -> it.n
               [] it.f \in {"C", "UnixLine"} -> t
               [] OTHER -> IF pb = <<>> THEN -1 ELSE Num(pb, en)
      size == pre + raw + (IF it.f \in {"C", "UnixLine"} THEN Len(suf) ELSE 0)
  IN IF marked /\ raw >= bom /\ a + size <= Len(src) /\ (it.f = "fixed" => it.n \in 1..65535)
     THEN [ok |-> TRUE, size |-> size, off |-> pre + bom, len |-> raw - bom, cs |-> cs]
     ELSE Bad

---------------------------------------------------------------------------
(* Decoding: [ok, v]                                                       *)
No == [ok |-> FALSE, v |-> <<>>]
Surr(c) == c \in 55296..57343
RECURSIVE D8(_, _, _)
D8(b, i, acc) ==    \* UTF-8
  IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
  ELSE LET x == b[i]
           n == CASE x < 128 -> 1 [] x \in 194..223 -> 2 [] x \in 224..239 -> 3 [] x \in 240..244 -> 4 [] OTHER -> 0
           Cont(k) == b[i + k] \in 128..191
           c == CASE n = 1 -> x
                  [] n = 2 -> ((x - 192) * 64) + (b[i + 1] - 128)
                  [] n = 3 -> ((x - 224) * 4096) + ((b[i + 1] - 128) * 64) + (b[i + 2] - 128)
                  [] OTHER -> ((x - 240) * 262144) + ((b[i + 1] - 128) * 4096)
                              + ((b[i + 2] - 128) * 64) + (b[i + 3] - 128)
       IN IF n = 0 \/ i + n - 1 > Len(b) THEN No
          ELSE IF \E k \in 1..(n - 1) : ~Cont(k) THEN No
          ELSE IF (n = 3 /\ (c < 2048 \/ Surr(c))) \/ (n = 4 /\ (c < 65536 \/ c > 1114111)) THEN No
          ELSE D8(b, i + n, Append(acc, c))
Two(b, i, big) == IF big THEN (b[i] * 256) + b[i + 1] ELSE (b[i + 1] * 256) + b[i]
RECURSIVE D16(_, _, _, _)
D16(b, i, big, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF i + 1 > Len(b) THEN No
  ELSE LET c == Two(b, i, big) IN
       IF ~Surr(c) THEN D16(b, i + 2, big, Append(acc, c))
       ELSE IF c > 56319 \/ i + 3 > Len(b) THEN No
       ELSE LET d == Two(b, i + 2, big) IN
            IF d \in 56320..57343
            THEN D16(b, i + 4, big, Append(acc, 65536 + ((c - 55296) * 1024) + (d - 56320)))
            ELSE No
RECURSIVE D32(_, _, _, _)
D32(b, i, big, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, v |-> acc]
  ELSE IF i + 3 > Len(b) THEN No
  ELSE LET hi == IF big THEN Two(b, i, TRUE) ELSE Two(b, i + 2, FALSE)
           lo == IF big THEN Two(b, i + 2, TRUE) ELSE Two(b, i, FALSE)
       IN IF hi > 16 \/ (hi = 0 /\ Surr(lo)) THEN No
          ELSE D32(b, i + 4, big, Append(acc, (hi * 65536) + lo))
Table(m, b) == IF \E i \in 1..Len(b) : m[b[i] + 1] = -1 THEN No
               ELSE [ok |-> TRUE, v |-> [i \in 1..Len(b) |-> m[b[i] + 1]]]
Strict(maps, cs, b) ==
  CASE cs = "UTF-8"     -> D8(b, 1, <<>>)
    [] cs = "UTF-16-LE" -> D16(b, 1, FALSE, <<>>)
    [] cs = "UTF-16-BE" -> D16(b, 1, TRUE, <<>>)
    [] cs = "UTF-32LE"  -> D32(b, 1, FALSE, <<>>)
    [] cs = "UTF-32BE"  -> D32(b, 1, TRUE, <<>>)
    [] cs = "ISO-8859-1" -> [ok |-> TRUE, v |-> b]
    [] cs = "ASCII"     -> IF \E i \in 1..Len(b) : b[i] > 127 THEN No ELSE [ok |-> TRUE, v |-> b]
    [] OTHER            -> Table(maps[cs], b)
\* what is not valid is shown as ISO-8859-1, except that half a character
\* missing at the end of UTF-16-LE is completed
Decode(maps, cs, b) ==
  LET d == Strict(maps, cs, b)
      e == Strict(maps, cs, Append(b, 0))
  IN IF d.ok THEN d.v
     ELSE IF cs = "UTF-16-LE" /\ Len(b) % 2 = 1 /\ e.ok THEN e.v
     ELSE b
\* unknown charset: a mark, then the smallest of ASCII, UTF-8; else any guess
\* of the 8-bit charsets
Begins(b, m) == Len(b) >= Len(m) /\ SubSeq(b, 1, Len(m)) = m
Guess(b, cs) ==
  CASE Begins(b, <<239, 187, 191>>) -> cs = "UTF-8"
    [] Begins(b, <<255, 254>>) -> cs = "UTF-16-LE"
    [] Begins(b, <<254, 255>>) -> cs = "UTF-16-BE"
    [] Strict(<<>>, "ASCII", b).ok -> cs = "ASCII"
    [] Strict(<<>>, "UTF-8", b).ok -> cs = "UTF-8"
    [] OTHER -> cs \notin Utf /\ cs # "ASCII"

Spaces == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
StripText(v, Z) ==
  LET K == {i \in 1..Len(v) : v[i] \notin Z}
  IN IF K = {} THEN <<>>
     ELSE LET lo == CHOOSE i \in K : \A j \in K : i <= j
              hi == CHOOSE i \in K : \A j \in K : i >= j
          IN SubSeq(v, lo, hi)
TruncText(v, w) ==
  LET K == IF w = <<>> THEN {} ELSE {i \in 1..Len(v) : Begins(SubSeq(v, i, Len(v)), w)}
  IN IF K = {} THEN v ELSE SubSeq(v, 1, (CHOOSE i \in K : \A j \in K : i <= j) - 1)
Text(maps, it, cs, b) ==
  LET v == TruncText(Decode(maps, cs, b), it.trunc)
  IN CASE it.strip = 0 -> v
       [] it.strip = 1 -> StripText(v, Spaces)
       [] OTHER -> StripText(v, {it.sch[i] : i \in 1..Len(it.sch)})
=============================================================================
