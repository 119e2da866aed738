--------------------------- MODULE OrderedDictMC ---------------------------
\* Exhaustive exploration of the container for a few keys, and generator of
\* one replayable behaviour per (reachable state, operation).
EXTENDS OrderedDict, TLC, Json
CONSTANTS Keys, Vals, MaxLen, Export
VARIABLES st, hist, last

Ev == [op : {"append", "set"}, k : Keys, v : Vals]
   \cup [op : {"get", "index"}, k : Keys]
   \cup [op : {"insert"}, i : (-MaxLen - 1)..(MaxLen + 1), k : Keys, v : {0}]
   \cup [op : {"replace"}, k : Keys, k2 : Keys, v : {1}]
   \cup [op : {"delete"}, i : (-MaxLen - 1)..(MaxLen + 1)]

Init == st = <<>> /\ hist = <<>> /\ last = [res |-> Ok(None), old |-> <<>>]
Next == \E e \in Ev : \E o \in Outcomes(st, e) :
          /\ Len(o.st) <= MaxLen
          /\ st' = o.st
          /\ hist' = Append(hist, e)
          /\ last' = [res |-> o.res, old |-> st]
          /\ Export => PrintT("SCRIPT " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<st, hist, last>>
View == st

KeysUnique  == Unique(st)
\* a refused operation leaves the container as it was
ErrorAtomic == last.res.t # "ok" => st = last.old
\* order is stable: a surviving pair of keys keeps its relative order
OrderStable ==
  \A a, b \in KeysOf(st) \cap KeysOf(last.old) :
     (a # b /\ PosOf(last.old, a) < PosOf(last.old, b)
        /\ hist # <<>> /\ hist[Len(hist)].op # "replace")
       => PosOf(st, a) < PosOf(st, b)
\* checked on every transition (`last' is not part of the view)
Steps == [][(ErrorAtomic /\ OrderStable)']_<<st, hist, last>>
=============================================================================
