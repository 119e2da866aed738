------------------------------ MODULE RegexMC ------------------------------
(* The simplifications of regular expressions as rewriting steps with the   *)
(* conditions under which they are right: any steps in any order, at any    *)
(* place, leave the language alone.                                         *)
EXTENDS Regex, TLC, Json
CONSTANTS Deep, Export
VARIABLES orig, ex, hist

a_ == 97 b_ == 98
Sa == Str_(<<a_>>) Sb == Str_(<<b_>>) Sab == Str_(<<a_, b_>>)
AnyAB == Range_(<<<<a_, b_>>>>, FALSE)
NotA == Range_(<<<<a_, a_>>>>, TRUE)
Atoms == {Empty_, Sa, Sb, Sab, AnyAB, NotA, Ex("dot")} \cup (IF Deep THEN {Str_(<<a_, a_>>), Ex("end")} ELSE {})
RepAtoms == Atoms \ {Ex("end"), Ex("start"), Ex("word")}
Bounds == {<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<3, 3>>, <<2, -1>>, <<1, 2>>, <<0, 2>>}
             \cup (IF Deep THEN {<<2, 3>>, <<4, 5>>, <<0, 3>>} ELSE {})
Reps(X) == {Rep_(x, b[1], b[2]) : x \in X, b \in Bounds}
Pair(X, Y) == {And_(x, y) : x \in X, y \in Y} \cup {Or_(x, y) : x \in X, y \in Y}
L1 == Atoms \cup Pair(Atoms, Atoms) \cup Reps(RepAtoms)
Alt == {e \in L1 : e.k \in {"and", "rep"}}
Exprs == L1 \cup Reps({e \in L1 : "end" \notin {y.k : y \in ToSet(e.a)} /\ e.k # "end"})
         \cup {Or_(x, y) : x \in Alt, y \in Atoms} \cup {And_(x, y) : x \in Atoms, y \in Alt}
         \cup {Or_(x, y) : x, y \in {e \in Alt : e.k = "and"}}
         \cup Reps({Or_(x, y) : x \in Reps({Sa, Sab}), y \in {Sb, Empty_, Sab}})
         \cup (IF Deep THEN Pair(Alt, Alt) ELSE {})

Words(k) == UNION {[1..j -> {a_, b_, 10}] : j \in 0..k}
W == Words(IF Deep THEN 4 ELSE 3) \cup {[i \in 1..j |-> a_] : j \in 4..6}
         \cup {[i \in 1..4 |-> IF i % 2 = 1 THEN a_ ELSE b_], [i \in 1..6 |-> IF i % 2 = 1 THEN a_ ELSE b_]}
Lang(e) == {w \in W : Full(e, w)}

---------------------------------------------------------------------------
One(e) == e.k = "str" /\ Len(e.s) = 1
Items(e) == IF One(e) THEN <<<<e.s[1], e.s[1]>>>> ELSE e.r
Plain(e) == One(e) \/ (e.k = "range" /\ ~e.x)
Join_(q) == IF q = <<>> THEN Empty_ ELSE IF Len(q) = 1 THEN q[1] ELSE [Ex("and") EXCEPT !.a = q]
Common(p, q) == LET n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
                IN CHOOSE k \in 0..n : SubSeq(p, 1, k) = SubSeq(q, 1, k)
                                       /\ (k = n \/ p[k + 1] # q[k + 1])
Parts(e) == IF e.k = "and" THEN e.a ELSE IF e.k = "empty" THEN <<>> ELSE <<e>>
From(q, k) == SubSeq(q, k, Len(q))

\* x contains every text of y
Covers(x, y) ==
  \/ x = y
  \/ Plain(x) /\ Plain(y) /\ \A c \in 0..127 : In(c, Items(y)) => In(c, Items(x))
  \/ x.k = "dot" /\ y.k = "range" /\ In(10, y.r) = y.x
  \/ x.k = "dot" /\ One(y) /\ y.s[1] # 10

OrRules(x, y) ==
     (IF Covers(x, y) THEN {x} ELSE {})
  \cup (IF Covers(y, x) THEN {y} ELSE {})
  \cup (IF Plain(x) /\ Plain(y) THEN {Range_(Items(x) \o Items(y), FALSE)} ELSE {})
  \cup (IF x.k = "str" /\ y.k = "str" /\ Common(x.s, y.s) > 0
        THEN LET k == Common(x.s, y.s)
             IN {And_(Str_(SubSeq(x.s, 1, k)), Or_(Str_(From(x.s, k + 1)), Str_(From(y.s, k + 1))))}
        ELSE {})
  \cup (LET p == Parts(x) q == Parts(y) k == Common(p, q)
        IN IF k > 0 /\ x.k = "and" /\ y.k = "and"
           THEN {And_(Join_(SubSeq(p, 1, k)), Or_(Join_(From(p, k + 1)), Join_(From(q, k + 1))))}
           ELSE {})
AndRules(x, y) ==
     (IF x.k = "empty" THEN {y} ELSE {}) \cup (IF y.k = "empty" THEN {x} ELSE {})
  \cup (IF x.k = "str" /\ y.k = "str" THEN {Str_(x.s \o y.s)} ELSE {})
  \cup (IF x.k = y.k /\ x.k \in {"start", "end", "word"} THEN {x} ELSE {})
\* repeating from lo to hi times what repeats n to p times, without a gap
\* between k and k + 1 times
Gapless(n, p, lo, hi) == IF lo = hi THEN TRUE
                         ELSE IF lo = 0 THEN n <= 1
                         ELSE p = -1 \/ n * (lo + 1) <= p * lo + 1
Mul(p, q) == IF p = -1 \/ q = -1 THEN -1 ELSE p * q
InOr(x, lo, hi) == \* a branch of the repeated alternative
  CASE x.k = "empty" -> {}
    [] x.k = "rep" /\ x.lo = 0 /\ lo \in {0, 1} ->
         IF hi = -1 /\ x.hi = -1 THEN {x.a[1]} ELSE IF x.hi = 1 THEN {x.a[1]}
         ELSE {Rep_(x.a[1], 1, x.hi)}
    [] x.k = "rep" /\ x.lo = 1 /\ hi = -1 /\ x.hi = -1 /\ lo <= 1 -> {x.a[1]}
    [] OTHER -> {x}
RepRules(x, lo, hi) ==
     (IF x.k = "rep" /\ ~(lo = 0 /\ hi = 1) /\ Gapless(x.lo, x.hi, lo, hi)
      THEN {Rep_(x.a[1], x.lo * lo, Mul(x.hi, hi))} ELSE {})
  \cup (IF x.k = "or"
        THEN LET l2 == IF \E i \in 1..Len(x.a) : x.a[i].k = "empty" THEN 0
                       ELSE IF lo = 1 /\ \E i \in 1..Len(x.a) : x.a[i].k = "rep" /\ x.a[i].lo = 0 THEN 0 ELSE lo
                 q == FoldSeq(LAMBDA y, acc : acc \o (IF InOr(y, l2, hi) = {} THEN <<>>
                                                     ELSE <<CHOOSE z \in InOr(y, l2, hi) : TRUE>>), <<>>, x.a)
             IN IF Len(q) = 2 THEN {Rep_(Or_(q[1], q[2]), l2, hi)}
                ELSE IF Len(q) = 1 THEN {Rep_(q[1], l2, hi)} ELSE {}
        ELSE {})

Root(e) == CASE e.k = "or" /\ Len(e.a) = 2 -> OrRules(e.a[1], e.a[2])
             [] e.k = "and" /\ Len(e.a) = 2 -> AndRules(e.a[1], e.a[2])
             [] e.k = "rep" -> RepRules(e.a[1], e.lo, e.hi)
             [] OTHER -> {}
RECURSIVE Rewrites(_)
Rewrites(e) == Root(e) \cup UNION {{[e EXCEPT !.a[i] = z] : z \in Rewrites(e.a[i])} : i \in 1..Len(e.a)}

Init == orig \in Exprs /\ ex = orig /\ hist = 0
Next == \/ ~Export /\ \E z \in Rewrites(ex) : ex' = z /\ UNCHANGED <<orig, hist>>
        \/ Export /\ hist = 0 /\ hist' = 1 /\ UNCHANGED <<orig, ex>>
             /\ PrintT("SCRIPT " \o ToJson([e |-> orig, t |-> Text(orig), w |-> SetToSeq(Lang(orig))]))
Spec == Init /\ [][Next]_<<orig, ex, hist>>
---------------------------------------------------------------------------
Same == ex = orig \/ Lang(ex) = Lang(orig)
\* every text is within the lengths, and the bounds are attained or nothing matches
Lengths == \A w \in Lang(orig) : MinLen(orig) <= Len(w) /\ (MaxLen(orig) = -1 \/ Len(w) <= MaxLen(orig))
Shrinks == MinLen(ex) = MinLen(orig) /\ MaxLen(ex) = MaxLen(orig)
Inv == Same /\ (ex = orig => Lengths) /\ Shrinks
=============================================================================
