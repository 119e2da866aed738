---------------------------- MODULE EditorTrace ----------------------------
(***************************************************************************)
(* Recorded uses of the editor against Editor.                             *)
(* Header: items, src, en.                                                 *)
(***************************************************************************)
EXTENDS Editor, TraceKit

EInit(t) == {[ch |-> Build(t.items, t.src, 0, t.en), en |-> t.en, src |-> t.src, edited |-> FALSE]}
Ok(e) == e.res = "ok"

SetEn(s, p) == IF p = <<>> THEN s.en ELSE At_(s.ch, p).en
\* names given to the new fields: as asked, or the next free index
Named(nm, ix, got) == IF ix THEN \E k \in 0..99 : got = nm \o "[" \o ToString(k) \o "]" ELSE got = nm
Given(e) == [i \in 1..Len(e.ns) |-> [e.ns[i] EXCEPT !.nm = IF i <= Len(e.got) THEN e.got[i] ELSE @]]
\* an indexed name is always free: only the others can be duplicates
PlainClash(s, e) ==
  LET c == Children(s.ch, e.p)
      plain == SelectSeq(e.ns, LAMBDA n : ~n.ix)
  IN \/ \E i \in 1..Len(plain) : plain[i].nm \in Names(c)
     \/ Cardinality({plain[i].nm : i \in 1..Len(plain)}) # Len(plain)

Edits(s, e) ==
  CASE e.op = "set" -> SetValue(s.ch, e.p, e.v)
    [] e.op = "del" -> Delete(s.ch, e.p)
    [] e.op = "ins" ->
         IF ~HasSet(s.ch, e.p) THEN {}
         ELSE IF \E i \in 1..Len(e.ns) : ~Makeable(e.ns[i], SetEn(s, e.p)) THEN {}
         ELSE IF ~Ok(e) /\ ~PlainClash(s, e) /\ Places(Children(s.ch, e.p), e.where, e.anchor) # {}
         THEN {s.ch}     \* had to succeed: any document but a refusal
         ELSE LET g == Given(e)
              IN Insert(s.ch, e.p, e.where, e.anchor,
                        [i \in 1..Len(g) |-> Make(g[i], SetEn(s, e.p))])

RECURSIVE SameV(_, _)
SameV(x, v) == Value(x) = None \/ v.t = "unread" \/ Value(x) = v
\* a value of the document read again from what was written
Again(x, v) == SameV(x, v) /\ Size(x) >= 0

EStep(s, e) ==
  CASE e.op \in {"set", "del", "ins"} ->
         LET D == Edits(s, e) IN
         IF D = {} THEN IF Ok(e) THEN {} ELSE {s}
         ELSE IF ~Ok(e) THEN {}
         ELSE IF e.op = "ins" /\ ~(Len(e.got) = Len(e.ns)
                   /\ \A i \in 1..Len(e.ns) : Named(e.ns[i].nm, e.ns[i].ix, e.got[i])) THEN {}
         ELSE {[s EXCEPT !.ch = c, !.edited = TRUE] : c \in D}
    [] e.op = "list" ->
         IF ~HasSet(s.ch, e.p) THEN IF Ok(e) THEN {} ELSE {s}
         ELSE LET c == Children(s.ch, e.p) IN
              IF /\ Ok(e) /\ Len(e.f) = Len(c) /\ e.n = Len(c)
                 /\ \A i \in 1..Len(c) : /\ e.f[i].nm = c[i].nm /\ e.f[i].sz = Size(c[i])
                                         /\ e.f[i].a = SizeAll(SubSeq(c, 1, i - 1))
              THEN {s} ELSE {}
    [] e.op = "has" ->
         IF e.in = Has(s.ch, e.p) THEN {s} ELSE {}
    [] e.op = "get" ->
         IF ~Has(s.ch, e.p) THEN IF e.res = "exc:MissingField" THEN {s} ELSE {}
         ELSE LET x == At_(s.ch, e.p) IN
              IF /\ Ok(e) /\ e.nm = x.nm /\ e.sz = Size(x) /\ e.set = (IsSet(x) \/ x.k \in {"float", "tree"})
                 /\ e.a = AddrIn(Children(s.ch, Up(e.p)), x.nm)
                 /\ (~IsSet(x) => SameV(x, e.v))
              THEN {s} ELSE {}
    [] e.op = "size" -> IF Ok(e) /\ e.n = SizeAll(s.ch) /\ (e.alt => s.edited) THEN {s} ELSE {}
    [] e.op = "reset" -> IF Ok(e) THEN {s} ELSE {}
    [] e.op = "write" ->
         LET w == Written(s.ch) IN
         CASE ~s.edited -> IF Ok(e) /\ e.d = s.src THEN {s} ELSE {}
           [] w.st = "mix" -> {s}
           [] w.st = "no" -> IF Ok(e) THEN {} ELSE {s}
           [] OTHER -> IF Ok(e) /\ e.d = w.d THEN {s} ELSE {}
    [] e.op = "copy" -> IF Ok(e) /\ e.new = e.old THEN {s} ELSE {}
    [] e.op = "reread" -> \* the leaves found in what was written, in order
         LET L == Leaves(s.ch) IN
         IF Ok(e) /\ Len(e.vs) = Len(L)
            /\ \A i \in 1..Len(L) : e.vs[i].sz = Len(L[i].b) /\ SameV(L[i], e.vs[i].v)
         THEN {s} ELSE {}
EAllow(s, e) ==
  [ch |-> IF Len(s.src) > 200 THEN <<>> ELSE s.ch,
   w |-> IF e.op = "write" THEN Written(s.ch) ELSE [st |-> "", d |-> <<>>]]
=============================================================================
