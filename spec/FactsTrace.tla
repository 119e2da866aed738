------------------------------ MODULE FactsTrace ------------------------------
(***************************************************************************)
(* What was learned from documents, whole and damaged.  Header: fmt, cls,    *)
(* first (the end of the first slot, which tells the format)                *)
(* and the facts of the document [g, nb, k, v, need].  Events: op "read"     *)
(* (kind: whole, cut or flip; the first d bytes are intact; fragile: cut within a fragile slot) or "real" (a     *)
(* sample): acc, the parser; raised; vals, what was learned; digs, the       *)
(* exports after different lookups.                                         *)
(***************************************************************************)
EXTENDS SystemFacts, TraceKit

H == Traces[tid].hdr
XInit(t) == {0}
Read(e) == [g |-> e.g, k |-> e.k, v |-> e.v]
Endian == IF H.fmt \in EveryBigEndian THEN "Big endian" ELSE "Little endian"
General == (IF EveryMime(H.fmt) = "" THEN {} ELSE {[g |-> "", k |-> "mime_type", v |-> EveryMime(H.fmt)]}) \cup {[g |-> "", k |-> "endian", v |-> Endian]}
\* keys which a damaged part of the document can state once more
Loose(e) == IF e.kind = "flip" THEN {"comment", "producer"} \cup (CASE H.fmt \in {"mp4", "mov"} -> {"width", "height"} [] H.fmt = "xcf" -> {"compression"} [] H.fmt = "iso9660" -> {"title", "author"} [] OTHER -> {}) ELSE {}
Known(e) == {Read(x) : x \in {x \in Wanted([fmt |-> H.fmt, facts |-> ToSet(H.facts)], e.q) : x.need <= e.d /\ ~e.fragile /\ ~(x.k \in {"comment", "producer"} /\ e.kind = "flip")}}
\* keys about which all is known
Sure(e) == LET all == ToSet(H.facts)
           IN {<<x.g, x.k>> : x \in {x \in all : x.k \notin Loose(e) /\ \A y \in all : y.g = x.g /\ y.k = x.k => y.need <= e.d}}
\* a damaged statement of the same key, which begins with the same text, takes its place
Replaced(x, e) == /\ e.kind = "flip" /\ \E y \in ToSet(H.facts) : y.g = x.g /\ y.k = x.k /\ y.need > e.d
                  /\ \E y \in ToSet(e.vals) : y.g = x.g /\ y.k = x.k /\ Len(y.v) > Len(x.v) /\ SubSeq(y.v, 1, Len(x.v)) = x.v
\* values computed from sizes: those which are not facts of the documents
Computed(y) == (y.k = "compr_rate" \/ (y.k = "bit_rate" /\ H.fmt = "flv") \/ (y.k = "duration" /\ H.fmt = "mp3")) /\ ~\E x \in ToSet(H.facts) : x.g = y.g /\ x.k = y.k
Learned(e) == LET vals == ToSet(e.vals)
              IN /\ \A x \in Known(e) : x \in vals \/ Replaced(x, e)
                 /\ e.kind = "whole" /\ Known(e) # {} => General \subseteq vals
                 /\ \A y \in vals :
                      /\ <<y.g, y.k>> \in Sure(e) => y \in {Read(x) : x \in ToSet(H.facts)}
                      /\ y.g = "" /\ y.k \in {"mime_type", "endian"} /\ ~(y.k = "mime_type" /\ H.fmt \in LateMime) /\ e.acc = H.cls /\ e.d >= H.first => y \in General
                      /\ e.kind = "whole" => y \in General \cup Known(e) \/ Computed(y)
XStep(s, e) ==
  IF /\ e.raised = "no"
     /\ \A i \in 1..Len(e.digs) : e.digs[i] = e.digs[1]
     /\ e.op = "read" => /\ e.kind = "whole" => e.acc = H.cls /\ e.acc # ""
                         /\ e.acc = H.cls /\ e.acc # "" => Learned(e)
  THEN {0} ELSE {}
XAllow(s, e) == IF e.op = "read" THEN <<[missing |-> Known(e) \ ToSet(e.vals),
                                        wrong |-> {y \in ToSet(e.vals) : (<<y.g, y.k>> \in Sure(e) \/ e.kind = "whole")
                                                     /\ ~Computed(y) /\ y \notin General \cup {Read(x) : x \in ToSet(H.facts)}}]>> ELSE <<>>
=============================================================================
