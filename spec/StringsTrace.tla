----------------------------- MODULE StringsTrace -----------------------------
(***************************************************************************)
(* String fields of the real code, one after another: header src, en       *)
(* (endian of the parser), maps; each event is one string and what it      *)
(* shows; "end" tells where the next field is.                             *)
(***************************************************************************)
EXTENDS Strings, TraceKit
TInit(t) == {[t |-> t, pos |-> t.start]}
TStep(s, e) ==
  IF e.op = "end" THEN IF e.a = s.pos THEN {s} ELSE {}
  ELSE
  LET x == Extent(s.t.src, s.pos, e.it, s.t.en) IN
  IF e.res.t = "err" THEN IF x.ok THEN {} ELSE {s}
  ELSE
  LET b == SubSeq(s.t.src, s.pos + x.off + 1, s.pos + x.off + x.len)
      v == Text(s.t.maps, e.it, e.res.cs, b)
  IN IF /\ x.ok
        /\ e.res.a = s.pos /\ e.res.z = x.size
        /\ e.res.off = x.off /\ e.res.clen = x.len
        /\ IF x.cs = "" THEN Guess(b, e.res.cs) ELSE e.res.cs = x.cs
        /\ e.res.v = (IF x.len = 0 THEN <<>> ELSE v)
        \* the length: of the text, in charsets of a fixed size before
        \* anything is taken away
        /\ e.res.len = (IF e.it.cs \in Utf THEN Len(e.res.v) ELSE x.len)
     THEN {[s EXCEPT !.pos = @ + x.size]} ELSE {}
TAllow(s, e) == LET x == Extent(s.t.src, s.pos, e.it, s.t.en)
                    b == SubSeq(s.t.src, s.pos + x.off + 1, s.pos + x.off + x.len)
                IN <<s.pos, x, IF x.ok /\ e.res.t = "ok" THEN Text(s.t.maps, e.it, e.res.cs, b) ELSE <<>>>>
=============================================================================
