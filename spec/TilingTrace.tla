----------------------------- MODULE TilingTrace -----------------------------
(***************************************************************************)
(* Complete trees of shipped parsers, visited set by set.  Header: size    *)
(* (bits of the source).  Each event is one visited set with its children  *)
(* in order; the state is the sets announced and not visited yet.          *)
(*   sequential sets: children contiguous from 0, unique names, and, when  *)
(*     the whole set was read (whole), covering exactly its size           *)
(*   seekable sets (seek): children inside the set, unique names; when     *)
(*     whole every bit is covered, and the fillers (fill) overlap nothing  *)
(***************************************************************************)
EXTENDS FieldTree, TraceKit

GInit(t) == {[todo |-> "/" :> [abs |-> 0, sz |-> t.size], end |-> t.size]}

Names1(ch) == {ch[i].nm : i \in 1..Len(ch)}
Sequential(e) ==
  /\ e.ch # <<>> => e.ch[1].a = 0
  /\ \A i \in 1..(Len(e.ch) - 1) : e.ch[i + 1].a = e.ch[i].a + e.ch[i].sz
  /\ LET end == IF e.ch = <<>> THEN 0 ELSE e.ch[Len(e.ch)].a + e.ch[Len(e.ch)].sz
     IN IF e.whole THEN end = e.sz ELSE end <= e.sz
Seekable(e) ==
  LET Part(b) == {[a |-> x.a, b |-> x.a + x.sz] :
                 x \in {e.ch[i] : i \in {j \in 1..Len(e.ch) : e.ch[j].sz > 0 /\ e.ch[j].fill = b}}}
  IN /\ \A i \in 1..Len(e.ch) : e.ch[i].a >= 0 /\ (e.whole => e.ch[i].a + e.ch[i].sz <= e.sz)
     /\ e.whole => LET g == GapsOf(Part(FALSE), e.sz)
                   IN Part(TRUE) = {g[i] : i \in 1..Len(g)}
GStep(s, e) ==
  IF /\ e.path \in DOMAIN s.todo
     /\ e.abs = s.todo[e.path].abs
     /\ e.sz = s.todo[e.path].sz
     /\ e.len = Len(e.ch) \/ ~e.whole
     /\ Cardinality(Names1(e.ch)) = Len(e.ch)
     /\ e.same                      \* a second listing shows the same
     /\ \A i \in 1..Len(e.ch) : e.ch[i].sz >= 0 /\ e.ch[i].abs = e.abs + e.ch[i].a
                                /\ (e.ch[i].set => e.ch[i].sz > 0)
     /\ IF e.seek THEN Seekable(e) ELSE Sequential(e)
  THEN {[s EXCEPT !.todo =
           [p \in {JoinPath(e.path, e.ch[i].nm) : i \in {j \in 1..Len(e.ch) : e.ch[j].set}} |->
              LET i == CHOOSE j \in 1..Len(e.ch) : JoinPath(e.path, e.ch[j].nm) = p
              IN [abs |-> e.ch[i].abs, sz |-> e.ch[i].sz]]
           @@ [p \in DOMAIN @ \ {e.path} |-> @[p]]]}
  ELSE {}
GAllow(s, e) == IF e.path \in DOMAIN s.todo THEN <<s.todo[e.path], Sequential(e), Cardinality(Names1(e.ch))>> ELSE <<>>
=============================================================================
