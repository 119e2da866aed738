---------------------------- MODULE OrderedDict ----------------------------
(***************************************************************************)
(* The ordered dictionary of hachoir/core/dict.py: the container in which  *)
(* every field set keeps its fields.  Abstract state: a sequence of        *)
(* <<key, value>> pairs with distinct keys.                                *)
(*                                                                         *)
(* Every operation is a set-valued function of the state: the set of       *)
(* [res, st] pairs it may produce.  A refused operation changes nothing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == -1
Ok(v)  == [t |-> "ok", v |-> v]
Err(x) == [t |-> x, v |-> None]

KeysOf(s)  == {s[i][1] : i \in 1..Len(s)}
Unique(s)  == Cardinality(KeysOf(s)) = Len(s)
PosOf(s,k) == CHOOSE i \in 1..Len(s) : s[i][1] = k
Put(s,i,x) == [s EXCEPT ![i] = x]
Ins(s,i,x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Del(s,i)   == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* Python's index convention: a negative index counts from the end
Norm(s, i) == IF i < 0 THEN i + Len(s) ELSE i

Append_(s, k, v) ==
  IF k \in KeysOf(s) THEN {[res |-> Err("exc:UniqKeyError"), st |-> s]}
  ELSE {[res |-> Ok(None), st |-> Append(s, <<k, v>>)]}

\* both errors may apply at once: either is acceptable
Insert(s, i, k, v) ==
  LET n == Norm(s, i)
      bad == (IF k \in KeysOf(s) THEN {"exc:UniqKeyError"} ELSE {})
             \cup (IF n < 0 \/ n > Len(s) THEN {"exc:IndexError"} ELSE {})
  IN IF bad # {} THEN {[res |-> Err(x), st |-> s] : x \in bad}
     ELSE {[res |-> Ok(None), st |-> Ins(s, n, <<k, v>>)]}

Set(s, k, v) ==
  IF k \notin KeysOf(s) THEN {[res |-> Err("exc:KeyError"), st |-> s]}
  ELSE {[res |-> Ok(None), st |-> Put(s, PosOf(s, k), <<k, v>>)]}

Replace(s, k, k2, v) ==
  IF k \notin KeysOf(s) THEN {[res |-> Err("exc:KeyError"), st |-> s]}
  ELSE IF k2 # k /\ k2 \in KeysOf(s)
       THEN {[res |-> Err("exc:UniqKeyError"), st |-> s]}
  ELSE {[res |-> Ok(None), st |-> Put(s, PosOf(s, k), <<k2, v>>)]}

Delete(s, i) ==
  LET n == Norm(s, i) IN
  IF n < 0 \/ n >= Len(s) THEN {[res |-> Err("exc:IndexError"), st |-> s]}
  ELSE {[res |-> Ok(None), st |-> Del(s, n + 1)]}

Get(s, k) ==
  IF k \notin KeysOf(s) THEN {[res |-> Err("exc:KeyError"), st |-> s]}
  ELSE {[res |-> Ok(s[PosOf(s, k)][2]), st |-> s]}

Index(s, k) ==
  {[res |-> Ok(IF k \in KeysOf(s) THEN PosOf(s, k) - 1 ELSE None), st |-> s]}

Outcomes(s, e) ==
  CASE e.op = "append"  -> Append_(s, e.k, e.v)
    [] e.op = "insert"  -> Insert(s, e.i, e.k, e.v)
    [] e.op = "set"     -> Set(s, e.k, e.v)
    [] e.op = "replace" -> Replace(s, e.k, e.k2, e.v)
    [] e.op = "delete"  -> Delete(s, e.i)
    [] e.op = "get"     -> Get(s, e.k)
    [] e.op = "index"   -> Index(s, e.k)

\* everything a client can see of the container
Obs(s) == [items  |-> s,
           values |-> [i \in 1..Len(s) |-> s[i][2]],
           keys   |-> [i \in 1..Len(s) |-> s[i][1]],
           len    |-> Len(s)]
=============================================================================
