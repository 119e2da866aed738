------------------------------ MODULE FactsMC ------------------------------
(***************************************************************************)
(* Readers of documents: any lookups, in any order, mixed with the steps of  *)
(* an extraction.  A lookup or a step needs all the slots up to the one it   *)
(* looks at, and fails, without any other effect, if a byte of them is       *)
(* damaged.  Checked: what is learned is what the intact slots state, and    *)
(* does not depend on the lookups; the documents are well formed.            *)
(***************************************************************************)
EXTENDS SystemFacts, Json
CONSTANTS Fmts, PerFormat, Export

VARIABLES doc, d, q, todo, learned, seen
vars == <<doc, d, q, todo, learned, seen>>

Some(f) == LET all == SetToSeq(EveryDocs(f)) IN {all[i] : i \in {i \in 1..Len(all) : (i * 7919) % Len(all) < PerFormat}}
\* a document without its bytes: where its slots end
Outline(x) == [fmt |-> x.fmt, ends |-> [i \in 1..Len(x.slots) |-> Size(SubSeq(x.slots, 1, i))],
               facts |-> {[g |-> y.g, nb |-> y.nb, k |-> y.k, v |-> y.v, need |-> Need(x, y.after)] : y \in x.facts}]
GoodDoc(x) ==
  /\ \A i, j \in 1..Len(x.slots) : x.slots[i].n = x.slots[j].n => i = j
  /\ \A i \in 1..Len(x.slots) : \A j \in 1..Len(x.slots[i].b) : x.slots[i].b[j] \in 0..255
  /\ \A y \in x.facts : \E i \in 1..Len(x.slots) : x.slots[i].n = y.after
  \* the facts about one thing are stated in the order of the file
  /\ \A y \in x.facts : y.g = "" \/ y.nb >= 0
Init == \E f \in Fmts : \E x \in (IF Export THEN EveryDocs(f) ELSE Some(f)) :
        /\ doc = Outline(x)
        /\ Assert(GoodDoc(x), "a document is not well formed")
        /\ IF Export
           THEN /\ d = 0 /\ q = 0
                /\ PrintT("SCRIPT " \o ToJson([fmt |-> x.fmt, bytes |-> Bytes(x),
                        slots |-> [i \in 1..Len(x.slots) |-> [n |-> x.slots[i].n, len |-> Len(x.slots[i].b), fragile |-> x.slots[i].n \in Fragile]],
                        facts |-> SetToSeq(Outline(x).facts)]))
           ELSE /\ q \in {0, 4, 8}
                \* the end of the intact bytes: at, before and behind the ends of the slots
                /\ d \in UNION {{e - 1, e} : e \in ToSet(doc.ends)}
        /\ todo = Wanted(doc, q) /\ learned = {} /\ seen = 0
\* a lookup reads everything up to the end of a slot
Lookup == \E i \in 1..Len(doc.ends) : /\ i > seen /\ doc.ends[i] <= d
                                      /\ seen' = i /\ UNCHANGED <<doc, d, q, todo, learned>>
\* (one order of the facts is enough: they do not touch each other)
Extract == /\ todo # {}
           /\ LET x == CHOOSE x \in todo : TRUE
                  upto == CHOOSE i \in 1..Len(doc.ends) : doc.ends[i] = x.need
              IN /\ todo' = todo \ {x}
                 /\ IF x.need <= d
                    THEN learned' = learned \cup {x} /\ seen' = (IF upto > seen THEN upto ELSE seen)
                    ELSE UNCHANGED <<learned, seen>>
           /\ UNCHANGED <<doc, d, q>>
Next == IF Export THEN FALSE ELSE Lookup \/ Extract
Spec == Init /\ [][Next]_vars

True_ == learned \subseteq doc.facts
Complete == todo = {} => learned = {x \in Wanted(doc, q) : x.need <= d}
\* nothing is learned from damaged bytes
Honest == \A x \in learned : x.need <= d
=============================================================================
