----------------------------- MODULE GuessTrace -----------------------------
(* Recorded choices of parsers, and recorded registrations.                  *)
EXTENDS Guess, TraceKit

GInit(t) == {[reg |-> t.reg, views |-> t.views, open |-> [i \in 1..Len(t.views) |-> 0]]}
GStep(s, e) ==
  CASE e.op = "ask" ->
         LET r == Rank(s.reg, e.tags)
             o == s.open[e.st]
             again == o # 0 /\ o \in Candidates(r)
         IN IF again THEN IF e.res = o /\ e.same THEN {s} ELSE {}
            ELSE IF /\ e.res \in Choice(s.reg, e.tags, s.views[e.st], e.use)
                    /\ ~e.same
                    /\ e.res > 0 /\ Works(s.views[e.st], r, e.res) => e.attr = r.args
                 THEN {IF e.res > 0 THEN [s EXCEPT !.open[e.st] = e.res] ELSE s} ELSE {}
    [] e.op = "close" -> {[s EXCEPT !.open[e.st] = 0]}
    [] e.op = "file" -> \* a new stream each time, which is known by its name
         IF e.kept /\ e.res \in Choice(s.reg, Append(e.tags, [k |-> "filename", v |-> e.name, any |-> FALSE, set |-> <<>>]),
                                       s.views[e.st], FALSE)
         THEN {s} ELSE {}
    [] e.op = "registry" -> IF e.same THEN {s} ELSE {}
    [] e.op = "add" ->
         LET reg == IF Addable(s.reg, e.p) THEN Append(s.reg, e.p) ELSE s.reg
         IN IF e.ids = [i \in 1..Len(reg) |-> reg[i].id] THEN {[s EXCEPT !.reg = reg]} ELSE {}
GAllow(s, e) ==
  CASE e.op = "ask" -> [choice |-> Choice(s.reg, e.tags, s.views[e.st], e.use), open |-> s.open[e.st],
                        groups |-> Rank(s.reg, e.tags).groups]
    [] e.op = "file" -> [choice |-> Choice(s.reg, Append(e.tags, [k |-> "filename", v |-> e.name, any |-> FALSE, set |-> <<>>]),
                                           s.views[e.st], FALSE)]
    [] OTHER -> [n |-> Len(s.reg)]
=============================================================================
