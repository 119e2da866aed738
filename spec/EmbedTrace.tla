------------------------------ MODULE EmbedTrace ------------------------------
(***************************************************************************)
(* Recorded accesses to embedded streams against Embed.  State: the        *)
(* document t, the streams opened so far h: [i, c (content), live, fin     *)
(* (size known)].  Every event tells cnt, the number of items parsed.      *)
(***************************************************************************)
EXTENDS Embed, TraceKit

EInit(t) == {[t |-> t, h |-> <<>>, cnt |-> 0]}
Err(e) == e.res.t = "err"
Ok(e)  == e.res.t = "ok"
\* value of bits [a, a+n) (n <= 16), most significant first
BitsAt(c, a, n) ==
  LET b == a \div 8
      last == (a + n - 1) \div 8
      v == FoldSeq(LAMBDA x, acc : acc * 256 + x, 0, SubSeq(c, b + 1, last + 1))
      r == 8 * (last + 1) - (a + n)
  IN (v \div (2 ^ r)) % (2 ^ n)

\* a stream opened: the same object as stream `was', or a new one
Open(s, e) ==
  LET c == Content(s.t, e.i, e.cnt)
      live == {j \in 1..Len(s.h) : s.h[j].live /\ s.h[j].i = e.i}
  IN IF Err(e) THEN (IF c = <<>> /\ live = {} THEN {[s EXCEPT !.h = Append(@, [i |-> e.i, c |-> c, live |-> FALSE])]} ELSE {})
     ELSE IF e.res.was > 0
     THEN IF e.res.was <= Len(s.h) /\ s.h[e.res.was].i = e.i /\ e.res.size \in {-1, 8 * Len(s.h[e.res.was].c)}
          THEN {[s EXCEPT !.h = Append(@, [s.h[e.res.was] EXCEPT !.live = TRUE])]} ELSE {}
     ELSE IF live = {} /\ e.res.size \in {-1, 8 * Len(c)}
             /\ (s.t.doc[e.i].codec = "" /\ s.t.doc[e.i].k \in {"win", "cf", "file"} => e.res.size = 8 * Len(c))
          THEN {[s EXCEPT !.h = Append(@, [i |-> e.i, c |-> c, live |-> TRUE])]} ELSE {}
\* names of the children of a fragment, and where its links lead
Kids(s, e) == IF Ok(e) /\ e.res.v = KidsOf(s.t, e.i) THEN {s} ELSE {}
Follow(s, e) == IF Ok(e) /\ e.res.v = LinkTarget(s.t, e.i, e.nm) THEN {s} ELSE {}
\* a link field: the field its path designates, or missing (0)
Resolve(s, e) == IF Ok(e) /\ e.res.v = s.t.doc[e.i].nxt THEN {s} ELSE {}

EStep(s0, e) ==
  IF e.cnt < s0.cnt THEN {} ELSE
  LET s == [s0 EXCEPT !.cnt = e.cnt] IN
  CASE e.op = "open" -> Open(s, e)
    [] e.op = "drop" -> {[s EXCEPT !.h[e.h].live = FALSE]}
    [] e.op = "kids" -> Kids(s, e)
    [] e.op = "follow" -> Follow(s, e)
    [] e.op = "resolve" -> Resolve(s, e)
    [] OTHER ->
       LET c == s.h[e.h].c
           T == 8 * Len(c)
       IN IF \/ c = <<>> /\ Err(e)       \* an empty stream is an error
             \/ CASE e.op = "read" -> \* bytes [a, a + n)
                    \/ /\ Ok(e) /\ ~e.res.miss /\ e.a + e.n <= Len(c)
                       /\ e.res.data = SubSeq(c, e.a + 1, e.a + e.n)
                    \/ e.n = 0 /\ Ok(e) /\ e.res.data = <<>>
                    \/ /\ e.a + e.n > Len(c)
                       /\ Err(e) \/ (Ok(e) /\ e.res.miss /\ e.res.data = SubSeq(c, e.a + 1, Len(c)))
              [] e.op = "bits" -> IF e.a + e.n > T THEN Err(e) ELSE Ok(e) /\ e.res.v = BitsAt(c, e.a, e.n)
              [] e.op = "size" -> Ok(e) /\ e.res.v \in {-1, T}
              [] e.op = "ge"   -> Ok(e) /\ e.res.v = (e.n <= T)
              [] e.op = "all"  -> Ok(e) /\ e.res.data = c
          THEN {s} ELSE {}
EAllow(s, e) ==
  IF e.op = "open" THEN [cnt |-> e.cnt, c |-> Content(s.t, e.i, e.cnt)]
  ELSE IF e.op = "kids" THEN [kids |-> KidsOf(s.t, e.i)]
  ELSE IF e.op \in {"follow", "resolve"} THEN [v |-> s.t.doc[e.i].nxt, f |-> s.t.doc[e.i].fst]
  ELSE [c |-> s.h[e.h].c]
=============================================================================
