-------------------------- MODULE OrderedDictTrace --------------------------
EXTENDS OrderedDict, TraceKit
DInit(t) == {t.init}
DStep(s, e) == {o.st : o \in {x \in Outcomes(s, e) : x.res = e.res /\ Obs(x.st) = e.obs}}
DAllow(s, e) == {[res |-> o.res, items |-> o.st] : o \in Outcomes(s, e)}
Inv == \A s \in S : Unique(s)
=============================================================================
