---------------------------- MODULE RewriteTrace ----------------------------
(***************************************************************************)
(* Recorded rewrites of real field sets against Rewrite.                   *)
(* Header: prog, src.  Every event carries the fields known afterwards     *)
(* (nm, a, sz and, for leaves, the bits v) and the events the set raised.  *)
(***************************************************************************)
EXTENDS Rewrite, TraceKit

RInit(t) == {[s |-> Fresh(t.prog, 8 * Len(t.src)), src |-> t.src]}

Sees(s, src, e) ==
  /\ Len(e.f) = Len(s.f)
  /\ \A i \in 1..Len(s.f) :
       /\ e.f[i].nm = s.f[i].nm /\ e.f[i].a = s.f[i].a /\ e.f[i].sz = s.f[i].sz
       /\ s.f[i].k = "leaf" =>
            e.f[i].v = [k \in 1..s.f[i].sz |-> BitBE(src, s.f[i].a + k - 1)]
  /\ e.size = s.size

Raised(s, i, new) == <<<<"replaced", s.f[i].nm, new.f[i].nm, 0>>>> \o
  [j \in 1..(Len(new.f) - Len(s.f)) |-> <<"inserted", new.f[i + j].nm, "", i + j - 1>>]
\* a refused request may have used up numbers for indexed names
Spent(s, ns) == {[s EXCEPT !.cnt = Lay(SubSeq(ns, 1, k), 0, s.cnt).cnt] : k \in 0..Len(ns)}
Rewritten(s, e, i, ns, r) ==
  IF r.ok THEN IF e.res = "ok" /\ e.raised = Raised(s, i, r.s) THEN {r.s} ELSE {}
  ELSE IF e.res = "refused" /\ e.raised = <<>> THEN Spent(s, ns) ELSE {}

RStep(w, e) ==
  LET s == w.s
      T == CASE e.op = "feed" -> IF e.res = "ok" THEN {FeedN(s, e.n)} ELSE {}
             [] e.op = "all" -> IF e.res = "ok" /\ e.n = Len(All(s).f) THEN {All(s)} ELSE {}
             [] e.op = "reset" -> IF e.res = "ok" THEN {Reset(s)} ELSE {}
             [] e.op = "replace" ->
                  LET C == {i \in 1..Len(s.f) : s.f[i].nm = e.nm} IN
                  IF C = {} THEN IF e.res = "refused" /\ e.raised = <<>> THEN {s} ELSE {}
                  ELSE LET i == CHOOSE i \in C : TRUE
                       IN Rewritten(s, e, i, e.ns, Replace(s, i, e.ns))
             [] e.op = "write" ->
                  Rewritten(s, e, e.i, Padding(e.off) \o e.ns \o Padding(1), Write(s, e.i, e.off, e.ns))
             [] e.op = "array" -> \* members nm[0], nm[1], ... (parses everything)
                  LET a == All(s)
                      P(k) == e.nm \o "[" \o ToString(k) \o "]"
                      n == CHOOSE n \in 0..Len(a.f) : P(n) \notin NmSet(a)
                                                      /\ \A k \in 0..(n - 1) : P(k) \in NmSet(a)
                  IN IF /\ e.res = "ok" /\ Len(e.m) = n
                        /\ \A k \in 1..n : \E i \in 1..Len(a.f) :
                             a.f[i].nm = P(k - 1) /\ e.m[k] = [a |-> a.f[i].a, sz |-> a.f[i].sz]
                     THEN {a} ELSE {}
             [] e.op = "byaddr" ->
                  LET a == All(s)
                      C == {i \in 1..Len(a.f) : a.f[i].a <= e.a /\ e.a < a.f[i].a + a.f[i].sz}
                  IN IF e.res = "ok" /\ e.nm = (IF C = {} THEN "" ELSE a.f[CHOOSE i \in C : TRUE].nm)
                     THEN {a} ELSE {}
             [] e.op = "lookup" ->
                  LET C == {i \in 1..Len(s.f) : s.f[i].nm = e.nm}
                      a == All(s)
                      \* a name not known yet is looked for in what is to come
                      G == {i \in 1..Len(a.f) : a.f[i].nm = e.nm}
                  IN IF C # {} THEN IF e.res = "ok" /\ e.a = s.f[CHOOSE i \in C : TRUE].a THEN {s} ELSE {}
                     ELSE IF G # {} THEN LET i == CHOOSE i \in G : TRUE
                                         IN IF e.res = "ok" /\ e.a = a.f[i].a THEN {FeedN(s, i - Len(s.f))} ELSE {}
                     ELSE IF e.res = "missing" THEN {a} ELSE {}
  IN {[w EXCEPT !.s = t] : t \in {u \in T : Sees(u, w.src, e)}}
RAllow(w, e) == [s |-> w.s,
  new |-> IF e.op = "write" THEN Write(w.s, e.i, e.off, e.ns)
          ELSE IF e.op = "replace" /\ e.nm \in NmSet(w.s)
          THEN Replace(w.s, CHOOSE i \in 1..Len(w.s.f) : w.s.f[i].nm = e.nm, e.ns) ELSE [ok |-> TRUE, s |-> All(w.s)]]
=============================================================================
