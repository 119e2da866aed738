------------------------------- MODULE Rewrite -------------------------------
(***************************************************************************)
(* Rewriting the fields of a field set (GenericFieldSet.replaceField,      *)
(* writeFieldsIn, reset) while it may be only partially parsed.            *)
(* A set: size, the fields known so far f, the items still to be parsed    *)
(* rest, name counters cnt (FieldTree!Named), cur = bits parsed.           *)
(***************************************************************************)
EXTENDS FieldTree

Fresh(prog, size) == [f |-> <<>>, cnt |-> <<>>, cur |-> 0, size |-> size, rest |-> prog,
                      prog |-> prog]
NmSet(s) == {s.f[i].nm : i \in 1..Len(s.f)}
Fld(nm, a, sz, k) == [nm |-> nm, a |-> a, sz |-> sz, k |-> k]

NextName(s, it) == FreeName(NmSet(s), s.cnt, it.nm, it.ix)
Done(s) == s.rest = <<>> /\ s.cur = s.size
Feed(s) ==
  IF s.rest = <<>>
  THEN IF s.cur < s.size
       THEN [s EXCEPT !.f = Append(@, Fld("raw[]", s.cur, s.size - s.cur, "raw")), !.cur = s.size]
       ELSE s
  ELSE LET n == NextName(s, Head(s.rest))
       IN [s EXCEPT !.f = Append(@, Fld(n.nm, s.cur, Head(s.rest).w, "leaf")), !.cnt = n.cnt,
                    !.cur = @ + Head(s.rest).w, !.rest = Tail(@)]
RECURSIVE FeedN(_, _)
FeedN(s, n) == IF n = 0 \/ Done(s) THEN s ELSE FeedN(Feed(s), n - 1)
All(s) == FeedN(s, Len(s.rest) + 1)

\* the new fields ns (each [nm, ix, w, k]) laid out from address a:
\* their names are chosen in order
RECURSIVE Lay(_, _, _)
Lay(ns, a, cnt) ==
  IF ns = <<>> THEN [f |-> <<>>, cnt |-> cnt]
  ELSE LET x == Head(ns)
           nm == IF x.ix THEN x.nm \o "[" \o ToString(Count(cnt, x.nm)) \o "]" ELSE x.nm
           r == Lay(Tail(ns), a + x.w, IF x.ix THEN Bump(cnt, x.nm) ELSE cnt)
       IN [f |-> <<Fld(nm, a, x.w, x.k)>> \o r.f, cnt |-> r.cnt]
Total(ns) == FoldSeq(LAMBDA x, acc : acc + x.w, 0, ns)

\* replacing the field at index i by ns: refused ([ok |-> FALSE]) or done.
Replace(s, i, ns) ==
  LET old == s.f[i]
      new == Lay(ns, old.a, s.cnt)
      names == [j \in 1..Len(new.f) |-> new.f[j].nm]
      ok == /\ ns # <<>> /\ Total(ns) = old.sz
            /\ \A j \in 1..Len(names) : names[j] \notin (NmSet(s) \ {old.nm})
            /\ \A j, k \in 1..Len(names) : names[j] = names[k] => j = k
  IN IF ~ok THEN [ok |-> FALSE, s |-> s]
     ELSE [ok |-> TRUE,
           s |-> [s EXCEPT !.f = SubSeq(@, 1, i - 1) \o new.f \o SubSeq(@, i + 1, Len(@)),
                           !.cnt = new.cnt]]
Padding(w) == IF w = 0 THEN <<>> ELSE <<[nm |-> "padding", ix |-> TRUE, w |-> w, k |-> "pad"]>>
\* writing ns at offset off of the field at index i
Write(s, i, off, ns) ==
  LET old == s.f[i] IN
  IF off < 0 \/ off + Total(ns) > old.sz THEN [ok |-> FALSE, s |-> s]
  ELSE Replace(s, i, Padding(off) \o ns \o Padding(old.sz - off - Total(ns)))
Reset(s) == Fresh(s.prog, s.size)

WellFormed(s) ==
  /\ \A i \in 1..Len(s.f) : s.f[i].a = (IF i = 1 THEN 0 ELSE s.f[i-1].a + s.f[i-1].sz) /\ s.f[i].sz > 0
  /\ Cardinality(NmSet(s)) = Len(s.f)
  /\ s.cur = (IF s.f = <<>> THEN 0 ELSE s.f[Len(s.f)].a + s.f[Len(s.f)].sz)
=============================================================================
