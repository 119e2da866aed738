--------------------------- MODULE FieldTreeTrace ---------------------------
(***************************************************************************)
(* Recorded accesses to real field sets against FieldTree.                 *)
(* Header: prog, src (bytes), fix (automatic repair).                      *)
(* State:  T    the finished tree (table by path), computed from the       *)
(*              program alone                                              *)
(*         fed  how many fields of each set have been parsed (exact for    *)
(*              the sets the client holds, an upper bound for others)      *)
(*         its  iterators: [at, pos]                                       *)
(* Every event carries cl: current length of each set the client holds.    *)
(***************************************************************************)
EXTENDS FieldPaths, TraceKit

\* A shipped parser has no program to compute the tree from: the header then
\* carries the table of another, complete in-order parse (tab).  How far such
\* a parser reads ahead is not specified (lazy = FALSE), and values are
\* compared by their recorded representation.
Rows(rows) == FoldSeq(LAMBDA x, acc : acc @@ (x.path :> x), <<>>, rows)
FInit(t) == LET tab == IF "tab" \in DOMAIN t THEN Rows(t.tab)
                       ELSE Table(TreeOf(t.prog, t.src, t.fix,
                                      "skb" \in DOMAIN t /\ t.skb), "/", 0, "", 0)
            IN {[T |-> tab, src |-> t.src, its |-> <<>>, lazy |-> "tab" \notin DOMAIN t,
                 fed |-> [p \in {q \in DOMAIN tab : tab[q].set} |->
                            tab[p].pre]]}

\* the fillers of a seekable set come all at once
Reach(s, p, k) ==
  IF s.T[p].skb /\ k > Cardinality({i \in 1..Len(s.T[p].ch) : s.T[s.T[p].ch[i]].k # "raw"})
  THEN Len(s.T[p].ch) ELSE k
Missing == "missing"
Has(s, p) == p \in DOMAIN s.T
\* what the client sees of a field
Shows(s, r, p) ==
  /\ r.path = p
  /\ (p # "/" => r.name = s.T[p].name)
  /\ r.a = s.T[p].a /\ r.abs = s.T[p].abs /\ r.sz = s.T[p].sz
  /\ r.set = s.T[p].set
  /\ (p # "/" => r.idx = s.T[p].idx)
  /\ r.up = s.T[p].up /\ r.top = "/"

Got(s, e, p) == IF p = "" THEN e.res.t = Missing
                ELSE e.res.t = "ok" /\ Shows(s, e.res, p)

\* [ok, n, its]: is the answer right, what had to be parsed, iterators
Ans(s, ok, n) == [ok |-> ok, n |-> n, its |-> s.its]

\* fields at an address (seekable sets may have several)
At(s, p, a, upto) == {s.T[p].ch[i] : i \in {k \in 1..upto :
                        LET c == s.T[s.T[p].ch[k]] IN c.a <= a /\ a < c.a + c.sz}}

RECURSIVE ValueOf(_, _)
ValueOf(s, p) == LET c == s.T[p] IN [i \in 1..c.sz |-> BitBE(s.src, c.abs + i - 1)]

Array(s, e, p, n) ==
  LET all == Len(s.T[p].ch)
      With(k) == IF s.T[p].set THEN Need(n, p, k) ELSE n IN
  CASE e.op = "agetlen" ->
         Ans(s, e.res.t = "ok" /\ e.res.v = Len(Members(s, p, e.nm, 0)), With(all))
    [] e.op = "aget" ->
         LET q == IF e.i < 0 THEN "" ELSE MemberPath(s, p, e.nm, e.i)
         IN Ans(s, IF e.test THEN e.res.t = "ok" /\ e.res.b = (q # "") ELSE Got(s, e, q),
                With(IF e.i < 0 THEN all ELSE ArrNeed(s, p, e.nm, e.i)))
    [] e.op = "abool" -> Ans(s, e.res.t = "ok" /\ e.res.b = (MemberPath(s, p, e.nm, 0) # ""),
                             With(ArrNeed(s, p, e.nm, 0)))
    [] e.op = "aiter" -> Ans(s, e.res.t = "ok" /\ e.res.v = Members(s, p, e.nm, 0), With(all))

Eval(s, e) ==
  LET p == e.at
      all == IF p \in DOMAIN s.fed THEN Len(s.T[p].ch) ELSE 0
  IN
  CASE e.op = "idx" ->
         IF e.i + 1 > all \/ e.i < 0
         THEN IF s.T[p].bad /\ e.i >= 0
              THEN Ans(s, e.res.t # "ok", p :> all)   \* the error of the parser
              ELSE Ans(s, e.res.t = Missing, IF e.i < 0 THEN None ELSE p :> all)
         ELSE IF e.const /\ e.i + 1 > s.fed[p] THEN Ans(s, e.res.t = Missing, None)
         ELSE Ans(s, Got(s, e, s.T[p].ch[e.i + 1]), IF e.const THEN None ELSE p :> e.i + 1)
    [] e.op = "path" ->
         LET r == Resolve(s, IF e.abs THEN "/" ELSE p, e.parts, e.const, None)
         IN Ans(s, IF e.test THEN e.res.t = "ok" /\ e.res.b = (r.p # "") ELSE Got(s, e, r.p), r.n)
    [] e.op = "len" -> Ans(s, e.res.t = "ok" /\ e.res.v = all, p :> all)
    [] e.op = "size" -> Ans(s, e.res.t = "ok" /\ e.res.v = s.T[p].sz, None)
    [] e.op = "value" -> \* raw and padding fields off a byte boundary may have no value
                       Ans(s, IF s.T[p].k = "real" THEN e.res.t = "ok" /\ e.res.v = s.T[p].val
                              ELSE IF s.T[p].k = "leaf" THEN e.res.t = "ok" /\ e.res.bits = ValueOf(s, p)
                              ELSE e.res.t \in {"ok", "none"}, None)
    [] e.op = "more" -> \* read e.n more fields
         LET k == Reach(s, p, Min2(all, s.fed[p] + e.n))
         IN Ans(s, e.res.t = "ok" /\ e.res.v = k - s.fed[p] /\ e.cl[p] = k, p :> k)
    [] e.op = "first" -> \* read the first e.n fields
         LET k == Max2(s.fed[p], Reach(s, p, Min2(all, e.n)))
         IN Ans(s, e.res.t = "ok" /\ e.res.v = k - s.fed[p] /\ e.cl[p] = k, p :> k)
    [] e.op = "iter" -> [ok |-> e.res.t = "ok", n |-> None, its |-> Append(s.its, [at |-> p, pos |-> 0])]
    [] e.op = "next" ->
         LET it == s.its[e.it]
             m == Len(s.T[it.at].ch)
         IN IF it.pos >= m
            THEN [ok |-> e.res.t = "stop", n |-> it.at :> m, its |-> s.its]
            ELSE [ok |-> Got(s, e, s.T[it.at].ch[it.pos + 1]), n |-> it.at :> (it.pos + 1),
                  its |-> [s.its EXCEPT ![e.it].pos = @ + 1]]
    [] e.op = "byaddr" ->
         LET C == At(s, p, e.a, IF e.feed THEN all ELSE s.fed[p])
         IN Ans(s, IF C = {} THEN e.res.t = "none" ELSE \E q \in C : Got(s, e, q),
                IF e.feed THEN p :> all ELSE None)
    [] e.op \in {"agetlen", "aget", "abool", "aiter"} ->
         \* the array may be that of a set reached by a path
         LET r == Resolve(s, p, e.sub, FALSE, None) IN
         IF r.p = "" THEN Ans(s, e.res.t = Missing, r.n) ELSE Array(s, e, r.p, r.n)
    [] e.op = "show" -> Ans(s, Got(s, e, p), None)     \* a field seen before
    [] e.op = "reset" -> Ans(s, e.res.t = "ok", None)

Parsed(s, e, n) ==
  LET f(p) == IF p \in DOMAIN n THEN Max2(s.fed[p], Reach(s, p, n[p])) ELSE s.fed[p] IN
  \* (a set which is smaller than what was read to learn its size drops
  \* fields when it is finished)
  /\ \A p \in DOMAIN e.cl : \/ p \in DOMAIN s.fed /\ s.T[p].trim
                            \/ /\ p \in DOMAIN s.fed
                               /\ s.fed[p] <= Max2(e.cl[p], f(p))
                               /\ e.cl[p] <= (IF s.lazy THEN f(p) ELSE Len(s.T[p].ch))

IsUnder(s, q, p) == \E k \in 1..8 : Up(s, q, k) = p
FStep(s, e) ==
  IF ~(e.at = "" \/ Has(s, e.at)) THEN {}
  ELSE IF e.op = "reset"
  THEN \* everything below is parsed anew; the client drops what it held
       IF e.res.t # "ok" \/ e.cl # (e.at :> 0) @@ e.cl THEN {}
       ELSE {[s EXCEPT !.fed = [p \in DOMAIN s.fed |->
                IF p = e.at THEN 0
                ELSE IF IsUnder(s, p, e.at) THEN s.T[p].pre
                ELSE s.fed[p]]]}
  ELSE LET r == Eval(s, e) IN
  IF r.ok /\ Parsed(s, e, r.n)
  THEN {[s EXCEPT !.its = r.its,
                  !.fed = [p \in DOMAIN s.fed |->
                             IF p \in DOMAIN e.cl THEN e.cl[p]
                             ELSE IF p \in DOMAIN r.n THEN Max2(s.fed[p], Reach(s, p, r.n[p])) ELSE s.fed[p]]]}
  ELSE {}
FAllow(s, e) ==
  LET p == IF e.op = "next" THEN s.its[e.it].at ELSE e.at IN
  IF p # "" /\ Has(s, p)
  THEN [node |-> s.T[p], fed |-> IF s.T[p].set THEN s.fed[p] ELSE 0,
        eval |-> IF e.op \in {"reset", "next"} THEN <<>> ELSE <<Eval(s, e).ok, Eval(s, e).n>>,
        next |-> IF e.op = "next" /\ s.its[e.it].pos < Len(s.T[p].ch)
                 THEN <<s.T[s.T[p].ch[s.its[e.it].pos + 1]]>> ELSE <<>>]
  ELSE [node |-> NoNode, fed |-> 0, eval |-> <<>>, next |-> <<>>]
=============================================================================
