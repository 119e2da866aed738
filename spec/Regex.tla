------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Regular expressions (hachoir/regex) and what they match, as Python does. *)
(*                                                                         *)
(* expression [k |-> kind, s |-> codes, r |-> sequence of <<lo, hi>>,       *)
(*             x |-> excluded, a |-> sequence of expressions, lo, hi]       *)
(*   kinds: empty, start, end, word, dot, str (s), range (r, x),            *)
(*          and, or (a), rep (a[1], lo..hi, hi = -1: no limit)              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Ex(k) == [k |-> k, s |-> <<>>, r |-> <<>>, x |-> FALSE, a |-> <<>>, lo |-> 0, hi |-> 0]
Empty_ == Ex("empty")
Str_(s) == IF s = <<>> THEN Empty_ ELSE [Ex("str") EXCEPT !.s = s]
Range_(r, x) == [Ex("range") EXCEPT !.r = r, !.x = x]
And_(a, b) == [Ex("and") EXCEPT !.a = <<a, b>>]
Or_(a, b) == [Ex("or") EXCEPT !.a = <<a, b>>]
Rep_(a, lo, hi) == [Ex("rep") EXCEPT !.a = <<a>>, !.lo = lo, !.hi = hi]

Word(c) == c \in (48..57) \cup (65..90) \cup (97..122) \cup {95} \cup ((192..255) \ {215, 247})
WordAt(s, i) == i \in 1..Len(s) /\ Word(s[i])
In(c, r) == \E i \in 1..Len(r) : r[i][1] <= c /\ c <= r[i][2]

\* M(e, s, i): where a match of e starting after the first i characters of s
\* may end
RECURSIVE M(_, _, _)
RECURSIVE Steps(_, _, _)
Steps(e, s, P) == UNION {M(e, s, j) : j \in P}
RECURSIVE Times(_, _, _, _)
Times(e, s, P, n) == IF n = 0 \/ P = {} THEN P ELSE Times(e, s, Steps(e, s, P), n - 1)
RECURSIVE UpTo(_, _, _, _)
UpTo(e, s, P, n) == LET Q == P \cup Steps(e, s, P)
                    IN IF n = 0 \/ Q = P THEN P ELSE UpTo(e, s, Q, n - 1)
RECURSIVE Chain(_, _, _)
Chain(q, s, P) == IF q = <<>> THEN P ELSE Chain(Tail(q), s, Steps(Head(q), s, P))
M(e, s, i) ==
  LET n == Len(s) IN
  CASE e.k = "empty" -> {i}
    [] e.k = "start" -> IF i = 0 THEN {i} ELSE {}
    [] e.k = "end" -> IF i = n \/ (i = n - 1 /\ s[n] = 10) THEN {i} ELSE {}
    [] e.k = "word" -> IF WordAt(s, i) # WordAt(s, i + 1) THEN {i} ELSE {}
    [] e.k = "dot" -> IF i < n /\ s[i + 1] # 10 THEN {i + 1} ELSE {}
    [] e.k = "str" -> IF i + Len(e.s) <= n /\ SubSeq(s, i + 1, i + Len(e.s)) = e.s
                      THEN {i + Len(e.s)} ELSE {}
    [] e.k = "range" -> IF i < n /\ In(s[i + 1], e.r) # e.x THEN {i + 1} ELSE {}
    [] e.k = "and" -> Chain(e.a, s, {i})
    [] e.k = "or" -> UNION {M(e.a[j], s, i) : j \in 1..Len(e.a)}
    [] e.k = "rep" -> LET P == Times(e.a[1], s, {i}, e.lo)
                      IN UpTo(e.a[1], s, P, IF e.hi = -1 THEN n + 1 ELSE e.hi - e.lo)
Full(e, s) == Len(s) \in M(e, s, 0)

\* shortest and longest text (-1: no limit)
Least(q) == FoldSeq(LAMBDA x, acc : IF acc = -1 \/ x < acc THEN x ELSE acc, -1, q)
Most(q) == IF -1 \in ToSet(q) THEN -1 ELSE FoldSeq(LAMBDA x, acc : IF x > acc THEN x ELSE acc, 0, q)
Sum_(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
RECURSIVE MinLen(_)
MinLen(e) == CASE e.k \in {"dot", "range"} -> 1
               [] e.k = "str" -> Len(e.s)
               [] e.k = "and" -> Sum_([i \in 1..Len(e.a) |-> MinLen(e.a[i])])
               [] e.k = "or" -> Least([i \in 1..Len(e.a) |-> MinLen(e.a[i])])
               [] e.k = "rep" -> e.lo * MinLen(e.a[1])
               [] OTHER -> 0
RECURSIVE MaxLen(_)
MaxLen(e) == CASE e.k \in {"dot", "range"} -> 1
               [] e.k = "str" -> Len(e.s)
               [] e.k = "and" -> LET q == [i \in 1..Len(e.a) |-> MaxLen(e.a[i])]
                                 IN IF -1 \in ToSet(q) THEN -1 ELSE Sum_(q)
               [] e.k = "or" -> Most([i \in 1..Len(e.a) |-> MaxLen(e.a[i])])
               [] e.k = "rep" -> LET m == MaxLen(e.a[1])
                                 IN IF m = 0 THEN 0 ELSE IF e.hi = -1 \/ m = -1 THEN -1 ELSE m * e.hi
               [] OTHER -> 0

---------------------------------------------------------------------------
(* Text of an expression, as a user writes it *)
Special == {94, 46, 43, 42, 63, 123, 125, 91, 93, 124, 40, 41, 92, 36}
RECURSIVE Digits_(_)
Digits_(n) == IF n < 10 THEN <<48 + n>> ELSE Digits_(n \div 10) \o <<48 + (n % 10)>>
Esc1(c) == IF c \in Special THEN <<92, c>> ELSE <<c>>
EscR(c) == IF c \in {92, 93, 94, 45, 91} THEN <<92, c>> ELSE <<c>>
RECURSIVE Text(_)
Paren(e) == <<40>> \o Text(e) \o <<41>>
Text(e) ==
  CASE e.k = "empty" -> <<>>
    [] e.k = "start" -> <<94>>
    [] e.k = "end" -> <<36>>
    [] e.k = "word" -> <<92, 98>>
    [] e.k = "dot" -> <<46>>
    [] e.k = "str" -> FlattenSeq([i \in 1..Len(e.s) |-> Esc1(e.s[i])])
    [] e.k = "range" -> <<91>> \o (IF e.x THEN <<94>> ELSE <<>>) \o
         FlattenSeq([i \in 1..Len(e.r) |->
            IF e.r[i][1] = e.r[i][2] THEN EscR(e.r[i][1])
            ELSE <<e.r[i][1], 45, e.r[i][2]>>]) \o <<93>>
    [] e.k = "and" -> FlattenSeq([i \in 1..Len(e.a) |-> Text(e.a[i])])
    [] e.k = "or" -> <<40>> \o FlattenSeq([i \in 1..Len(e.a) |->
                        (IF i = 1 THEN <<>> ELSE <<124>>) \o Text(e.a[i])]) \o <<41>>
    [] e.k = "rep" ->
         (IF e.a[1].k \in {"dot", "range", "or"} \/ (e.a[1].k = "str" /\ Len(e.a[1].s) = 1)
          THEN Text(e.a[1]) ELSE Paren(e.a[1])) \o
         (CASE e.lo = 0 /\ e.hi = -1 -> <<42>>
            [] e.lo = 1 /\ e.hi = -1 -> <<43>>
            [] e.lo = 0 /\ e.hi = 1 -> <<63>>
            [] e.lo = e.hi -> <<123>> \o Digits_(e.lo) \o <<125>>
            [] e.hi = -1 -> <<123>> \o Digits_(e.lo) \o <<44, 125>>
            [] OTHER -> <<123>> \o Digits_(e.lo) \o <<44>> \o Digits_(e.hi) \o <<125>>)
=============================================================================
