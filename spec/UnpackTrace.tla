----------------------------- MODULE UnpackTrace -----------------------------
(***************************************************************************)
(* What was read from packed data.  Header: kind, and the parts [codec, lev, *)
(* bytes, blocks, known, text]: what was packed, and what it means if that   *)
(* is known.  State: the texts.  Events: op whole, read (n bytes at at, as    *)
(* many as there are), size (bits), file (n bytes at at of a folder);        *)
(* part: which; got, raised.                                                *)
(***************************************************************************)
EXTENDS Unpack, TraceKit

Text(p) ==
  CASE p.codec = "store" -> p.bytes
    [] p.codec = "deflate" -> (LET r == Inflate(<<>>, p.bytes) IN IF r.m = "end" THEN r.out ELSE <<-1>>)
    \* every block goes on with the text before it
    [] p.codec = "mszip" -> FoldLeft(LAMBDA o, b : LET r == Inflate(o, b) IN IF r.m = "end" THEN r.out ELSE <<-1>>, <<>>, p.blocks)
    [] p.codec = "lzx" -> (LET r == Unlzx(p.lev, p.bytes) IN IF r.m \in {"btype", "fill"} THEN Unlzxed(r) ELSE <<-1>>)
    [] OTHER -> p.text
Texts(ps) == LET t == [i \in 1..Len(ps) |-> Text(ps[i])]
             IN FoldLeft(LAMBDA o, i : Append(o, IF ps[i].codec = "joined" THEN o[i - 1] \o o[i - 2] ELSE t[i]), <<>>, [i \in 1..Len(ps) |-> i])
\* what others have packed means what they were given
XInit(tr) == LET t == Texts(tr.hdr.parts)
             IN IF \A i \in 1..Len(t) : tr.hdr.parts[i].known => t[i] = tr.hdr.parts[i].text THEN {t} ELSE Assert(FALSE, <<"the receiver of the specification is wrong", tr.name>>)
Min2(a, b) == IF a < b THEN a ELSE b
Want2(t, e) == CASE e.op = "whole" -> t [] e.op \in {"read", "file"} -> SubSeq(t, e.at + 1, Min2(e.at + e.n, Len(t))) [] OTHER -> <<>>
XStep(s, e) ==
  LET t == s[e.part]
      \* more was asked for than there is
      over == e.op = "read" /\ e.raised = "exc:ReadStreamError" /\ e.at + e.n > Len(t)
  IN IF over \/ (/\ e.raised = "no"
                 /\ e.got = Want2(t, e)
                 /\ e.op = "size" => e.n = 8 * Len(t))
     THEN {s} ELSE {}
XAllow(s, e) == [want |-> Want2(s[e.part], e), size |-> 8 * Len(s[e.part])]
=============================================================================
