---------------------------- MODULE StripTrace ----------------------------
(* Recorded uses of the stripper.  Header: doc, or parts (a real file:      *)
(* top level parts [kind, sz, dig (digest)]).                               *)
EXTENDS Strip, TraceKit

Level(e) == {e.level[i] : i \in 1..Len(e.level)}
PInit(t) == {[t |-> t, cur |-> t.doc, fixed |-> FALSE, parts |-> t.parts]}
\* an already blanked archive is left as it is
Clean(t) == \A i \in 1..Len(t.ch) : t.ch[i].h = Blank_(t.ch[i].h)
Removed(p, e) == "metadata" \in Level(e) /\ p.kind \in {"text", "time", "comment", "photoshop",
                    "exif", "adobe", "id3v1", "id3v2"}
PStep(s, e) ==
  CASE e.op = "source" -> IF e.d = Bytes_(s.cur) /\ e.sizes = Sizes(s.cur) THEN {s} ELSE {}
    [] e.op = "strip" ->
         LET n == Stripped(s.cur, Level(e)) IN
         IF e.res # "ok" THEN {}
         ELSE IF ~e.dirty THEN
              IF n = s.cur THEN {s} ELSE {}
         ELSE IF n = s.cur /\ (s.cur.fmt # "tar" \/ s.fixed \/ "metadata" \notin Level(e)) THEN {}
         ELSE IF /\ Renders(e.d, n, n.fmt = "tar" /\ "metadata" \in Level(e))
                 /\ e.kept /\ e.accepted /\ e.sizes = Sizes(n)
         THEN {[s EXCEPT !.cur = n, !.fixed = n.fmt = "tar"]} ELSE {}
    [] e.op = "real" -> \* parts found in the file before and after
         LET want == SelectSeq(s.parts, LAMBDA p : ~Removed(p, e)) IN
         IF e.res # "ok" THEN {}
         ELSE IF want = s.parts THEN IF e.dirty THEN {} ELSE {s}
         ELSE IF e.dirty /\ e.parts = want THEN {[s EXCEPT !.parts = want]} ELSE {}
PAllow(s, e) == [cur |-> IF e.op = "strip" THEN Bytes_(Stripped(s.cur, Level(e))) ELSE <<>>,
                 sizes |-> IF e.op # "real" THEN Sizes(s.cur) ELSE <<>>]
=============================================================================
