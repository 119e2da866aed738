----------------------------- MODULE RegexTrace -----------------------------
(* Recorded uses of regular expressions: a pool of expressions made of each *)
(* other, observed by what their texts match.                               *)
EXTENDS Regex, TraceKit

RInit(t) == {[pool |-> <<>>]}
Put(s, e) == {[s EXCEPT !.pool = Append(@, e)]}
RStep(s, e) ==
  CASE e.op = "new" -> Put(s, e.e)
    [] e.op = "parse" -> \* written as the specification writes it
         IF e.text = Text(e.e) /\ e.res = "ok" THEN Put(s, e.e) ELSE {}
    [] e.op \in {"and", "add"} -> Put(s, And_(s.pool[e.i], s.pool[e.j]))
    [] e.op = "or" -> Put(s, Or_(s.pool[e.i], s.pool[e.j]))
    [] e.op = "join" -> Put(s, [Ex("and") EXCEPT !.a = [k \in 1..Len(e.is) |-> s.pool[e.is[k]]]])
    [] e.op = "orjoin" -> Put(s, [Ex("or") EXCEPT !.a = [k \in 1..Len(e.is) |-> s.pool[e.is[k]]]])
    [] e.op = "rep" ->
         IF e.res = "ok" THEN Put(s, Rep_(s.pool[e.i], e.lo, e.hi))
         ELSE IF e.res = "ValueError" /\ (e.hi = 0 \/ (e.lo = 1 /\ e.hi = 1) \/ (e.hi # -1 /\ e.hi < e.lo))
         THEN Put(s, Empty_) ELSE {}
    [] e.op = "check" ->
         LET x == s.pool[e.i] IN
         IF /\ e.res = "ok"
            /\ \A k \in 1..Len(e.strings) : Full(x, e.strings[k]) = e.match[k]
            /\ \A k \in 1..Len(e.strings) : e.match[k] =>
                 e.min <= Len(e.strings[k]) /\ (e.max = -1 \/ Len(e.strings[k]) <= e.max)
            /\ e.min <= MinLen(x) /\ (e.max = -1 \/ (MaxLen(x) # -1 /\ MaxLen(x) <= e.max))
         THEN {s} ELSE {}
    [] e.op = "eq" -> \* equal: the same texts match; "may match": the texts of the other match
         LET x == s.pool[e.i] y == s.pool[e.j] IN
         IF /\ e.eq => \A k \in 1..Len(e.strings) : Full(x, e.strings[k]) = Full(y, e.strings[k])
            /\ e.may => \A k \in 1..Len(e.strings) : Full(y, e.strings[k]) => Full(x, e.strings[k])
            /\ e.i = e.j => e.eq
         THEN {s} ELSE {}
RAllow(s, e) ==
  CASE e.op = "check" -> [match |-> [k \in 1..Len(e.strings) |-> Full(s.pool[e.i], e.strings[k])],
                          text |-> Text(s.pool[e.i]), min |-> MinLen(s.pool[e.i]), max |-> MaxLen(s.pool[e.i])]
    [] e.op = "parse" -> [text |-> Text(e.e)]
    [] e.op = "eq" -> [a |-> Text(s.pool[e.i]), b |-> Text(s.pool[e.j])]
    [] OTHER -> [n |-> Len(s.pool)]
=============================================================================
