------------------------------ MODULE RewriteMC ------------------------------
(* All sequences of D rewrites, parses and resets on small sets.            *)
EXTENDS Rewrite, Json
CONSTANTS D, Export
VARIABLES s, last, hist
vars == <<s, last, hist>>
N(nm, ix, w) == [nm |-> nm, ix |-> ix, w |-> w, k |-> "leaf"]
Progs == {<<N("a", FALSE, 4), N("x", TRUE, 3), N("b", FALSE, 6)>>,
          <<N("x", TRUE, 3), N("x[1]", FALSE, 5), N("x", TRUE, 4)>>}
News == {<<N("a", FALSE, 3)>>, <<N("x", TRUE, 3)>>, <<N("x[0]", FALSE, 3)>>,
         <<N("c", FALSE, 1), N("x", TRUE, 2)>>, <<N("c", FALSE, 2), N("c", FALSE, 2)>>,
         <<N("x", TRUE, 1), N("b", FALSE, 2)>>, <<N("p", FALSE, 4)>>, <<>>,
         <<N("q", FALSE, 2), N("a", FALSE, 2)>>, <<N("padding[0]", FALSE, 2)>>}
Init == /\ s \in {Fresh(p, 16) : p \in Progs} /\ last = TRUE /\ hist = <<>>
Log(x) == /\ hist' = Append(hist, x)
          /\ (Export => PrintT("SCRIPT " \o ToJson([prog |-> s.prog, ops |-> hist'])))
Next == /\ Len(hist) < D
        /\ \/ /\ ~Done(s) /\ s' = Feed(s) /\ last' = TRUE /\ Log([op |-> "feed", n |-> 1])
           \/ \E i \in 1..Len(s.f), ns \in News :
                LET r == Replace(s, i, ns) IN
                s' = r.s /\ last' = r.ok /\ Log([op |-> "replace", nm |-> s.f[i].nm, ns |-> ns])
           \/ \E i \in 1..Len(s.f), ns \in News, off \in {0, 1, 2} :
                LET r == Write(s, i, off, ns) IN
                s' = r.s /\ last' = r.ok /\ Log([op |-> "write", i |-> i, off |-> off, ns |-> ns])
           \/ s' = Reset(s) /\ last' = TRUE /\ Log([op |-> "reset"])
Spec == Init /\ [][Next]_vars
View == <<s, last, Len(hist)>>
Well == WellFormed(s) /\ WellFormed(All(s)) /\ (All(s)).cur = s.size
\* untouched fields stay, a refusal changes nothing
Kept == [][/\ (~last' => s' = s)
           /\ (s' # Reset(s)) => Cardinality({i \in 1..Len(s.f) : s.f[i] \notin
                 {s'.f[j] : j \in 1..Len(s'.f)}}) <= 1]_vars
Again == All(Reset(s)).f = All(Fresh(s.prog, s.size)).f
=============================================================================
