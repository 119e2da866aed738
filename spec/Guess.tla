------------------------------- MODULE Guess -------------------------------
(* Choosing the parser of a stream (hachoir/parser/guess.py, parser_list.py) *)
(*                                                                           *)
(* reg:  sequence of parsers [id, cat, exts, mimes], in order of registration *)
(* tag:  [k, v, set]: k = "none": only what was asked for before;             *)
(*       "call": the parsers of `set'; "class": the parser `set[1]', as it is;*)
(*       "args": attributes; "filename" (v: codes), "id", "category", "mime", *)
(*       "file_ext": the parsers with that tag (any: whatever its value)      *)
(* view of a stream: valid[p]: "a" p accepts the data, "r" it refuses them,   *)
(*       "x" it fails; built[p]: p can be built when it is not asked          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
After(q, c) == LET P == {i \in 1..Len(q) : q[i] = c}
               IN IF P = {} THEN [found |-> FALSE, q |-> q]
                  ELSE LET m == CHOOSE i \in P : \A j \in P : j <= i
                       IN [found |-> TRUE, q |-> SubSeq(q, m + 1, Len(q))]
Ext(name) == LET b == After(name, 47).q d == After(b, 46)
             IN IF d.found THEN [i \in 1..Len(d.q) |-> Lower(d.q[i])] ELSE <<>>

Has(p, tag) ==
  CASE tag.k = "id" -> tag.any \/ p.id = tag.v
    [] tag.k = "category" -> IF tag.any THEN p.cat # "" ELSE p.cat = tag.v
    [] tag.k = "mime" -> IF tag.any THEN p.mimes # <<>> ELSE tag.v \in ToSet(p.mimes)
    [] tag.k = "file_ext" -> IF tag.any THEN p.exts # <<>> ELSE tag.v \in ToSet(p.exts)
    [] tag.k = "filename" -> Ext(tag.v) \in ToSet(p.exts)
    [] OTHER -> FALSE

\* groups of candidates: one group is tried after the other, mostly of one
\* parser; the order within a group is not said
Rank1(reg, r, tag) ==
  LET g == CASE tag.k = "call" -> ToSet(tag.set) \cap r.left
             [] tag.k \in {"none", "args"} -> {}
             [] tag.k = "class" -> {tag.set[1]}
             [] OTHER -> {i \in r.left : Has(reg[i], tag)}
      one == SelectSeq([i \in 1..Len(reg) |-> IF i \in g THEN {i} ELSE {}], LAMBDA x : x # {})
      n == Cardinality(g)
  IN IF r.left = {} THEN r
     ELSE [left |-> CASE tag.k = "none" -> {}
                      [] tag.k = "class" -> r.left
                      [] OTHER -> r.left \ g,
           groups |-> IF g = {} THEN r.groups
                      ELSE IF tag.any THEN Append(r.groups, g) ELSE r.groups \o one,
           forced |-> IF tag.k \in {"id", "class"} THEN r.forced \cup g ELSE r.forced,
           args |-> r.args \/ tag.k = "args",
           single |-> IF r.single = -1 THEN (IF n = 1 THEN 1 ELSE 0) ELSE r.single]
Rank(reg, tags) ==
  LET r == FoldSeq(LAMBDA tag, acc : Rank1(reg, acc, tag),
                   [left |-> 1..Len(reg), groups |-> <<>>, forced |-> {}, args |-> FALSE, single |-> -1], tags)
  IN IF r.left = {} THEN r
     ELSE [r EXCEPT !.groups = @ \o SelectSeq([i \in 1..Len(reg) |-> IF i \in r.left THEN {i} ELSE {}],
                                             LAMBDA x : x # {})]

Works(v, r, p) == IF p \in r.forced THEN v.built[p] ELSE v.valid[p] = "a"
Candidates(r) == UNION ToSet(r.groups)
\* the parsers which may be chosen (0: none; -1: failure of the fallback)
RECURSIVE Pick(_, _, _)
Pick(v, r, q) == IF q = <<>> THEN {}
                 ELSE LET ok == {p \in Head(q) : Works(v, r, p)}
                      IN IF ok # {} THEN ok ELSE Pick(v, r, Tail(q))
Last_(v, r, use) ==
  IF use /\ r.single = 1 /\ r.groups # <<>>
  THEN LET p == CHOOSE p \in r.groups[1] : TRUE
       IN IF v.valid[p] = "r" /\ p \notin r.forced THEN IF v.built[p] THEN {p} ELSE {-1}
          ELSE {0}
  ELSE {0}
Choice(reg, tags, v, use) == LET r == Rank(reg, tags) c == Pick(v, r, r.groups)
                             IN IF c = {} THEN Last_(v, r, use) ELSE c

---------------------------------------------------------------------------
(* The list of parsers: what may be added *)
Cats == {"archive", "audio", "container", "file_system", "game", "image", "misc", "program", "video"}
Addable(reg, p) == /\ p.hasid /\ p.goodid /\ p.desc /\ p.shape
                   /\ p.cat \in Cats /\ p.size > 0
                   /\ \A i \in 1..Len(reg) : reg[i].id # p.id
=============================================================================
