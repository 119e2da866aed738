------------------------------- MODULE Guards -------------------------------
(* Calls under a limit (hachoir/core/timeout.py, memory.py), messages        *)
(* (log.py) and events (event_handler.py): what they leave behind.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* --- messages ---------------------------------------------------------------
INFO == 0
WARN == 1
ERROR == 2
Shown(c, level) == level >= ERROR \/ (level >= WARN /\ ~c.quiet)
                   \/ (c.verbose /\ ~c.quiet)
Prefix(level) == CASE level = WARN -> "[warn] " [] level = ERROR -> "[err!] " [] OTHER -> "[info] "
Line(level, text, ctxt) == Prefix(level) \o (IF ctxt = "" THEN "" ELSE "[" \o ctxt \o "] ") \o text
\* what one message adds to each of the enabled sinks
Emit(s, level, text, ctxt) ==
  IF ~Shown(s.cfg, level) THEN s
  ELSE [s EXCEPT !.err = IF s.print THEN Append(@, Line(level, text, ctxt)) ELSE @,
                 !.files = IF s.file = 0 THEN @ ELSE [@ EXCEPT ![s.file] = Append(@, Line(level, text, ctxt))],
                 !.calls = IF s.call = 0 THEN @ ELSE Append(@, <<s.call, level, text, ctxt>>)]

\* --- events -------------------------------------------------------------------
\* hs: sequence of [set, name, id, bad] in order of connection; set 0: all sets
Heard(hs, set, name) ==
  SelectSeq(hs, LAMBDA h : h.name = name /\ h.set = set)
  \o SelectSeq(hs, LAMBDA h : h.name = name /\ h.set = 0)
UpToBad(q) == LET B == {i \in 1..Len(q) : q[i].bad}
              IN IF B = {} THEN q ELSE SubSeq(q, 1, CHOOSE i \in B : \A j \in B : i <= j)
Called(hs, set, name) == [i \in 1..Len(UpToBad(Heard(hs, set, name))) |-> UpToBad(Heard(hs, set, name))[i].id]
=============================================================================
