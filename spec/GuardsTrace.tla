----------------------------- MODULE GuardsTrace -----------------------------
(* Recorded calls under limits, messages and events.                         *)
EXTENDS Guards, TraceKit

Frame(e) == [lim |-> e.lim, t0 |-> e.timer, body |-> "none", late |-> FALSE]
GuInit(t) == {[stack |-> <<>>, gone |-> {},
               cfg |-> [quiet |-> FALSE, verbose |-> FALSE],
               print |-> TRUE, file |-> 0, call |-> 0,
               err |-> <<>>, files |-> <<<<>>, <<>>>>, calls |-> <<>>,
               hs |-> <<>>]}
Slack == 200     \* seconds a recording may take
Near(t, t0) == t <= t0 /\ t0 - t <= Slack
Base == 20000    \* the timer of the caller, if it has one
\* the limits whose timer shows t
Owners(s, t) == {v \in {Base} \cup {s.stack[i].lim : i \in 1..Len(s.stack)} : t > 0 /\ Near(t, v)}
\* the timer of a limit which shows t where it should run
Runs(s, t, v) == IF t = 0 THEN v \in s.gone ELSE Near(t, v) /\ v \notin s.gone
TopF(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]

\* what a message adds is seen in every sink
Seen(s, e) == IF e.err = s.err /\ e.files = s.files /\ e.calls = s.calls THEN {s} ELSE {}

GuStep(s, e) ==
  CASE e.op = "start" -> {[s EXCEPT !.stack = <<>>, !.gone = {}]}
    [] e.op = "enter" -> {[s EXCEPT !.stack = Append(@, Frame(e)), !.gone = @ \ {e.lim}]}
    [] e.op = "look" -> \* in the body: its own limit is counted
         IF Runs(s, e.timer, TopF(s).lim) THEN {s} ELSE {}
    [] e.op = "expire" ->
         \* a timer is over: during the body the innermost call is given up; the
         \* timer may be the one of a call outside, or of the caller
         LET o == [s EXCEPT !.gone = @ \cup Owners(s, e.timer)] IN
         IF e.inbody THEN IF e.raised = "Timeout" THEN {o} ELSE {}
         ELSE {SetTop(o, [TopF(s) EXCEPT !.late = TRUE])}
    [] e.op = "body" -> {SetTop(s, [TopF(s) EXCEPT !.body = e.out])}
    [] e.op = "leave" ->
         LET f == TopF(s) IN
         IF /\ e.out = f.body \/ (f.late /\ e.out = "Timeout")
            /\ e.handler
            /\ IF f.t0 = 0 THEN e.timer = 0
               ELSE \E v \in Owners(s, f.t0) : Runs(s, e.timer, v)
         THEN {[s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]} ELSE {}
    [] e.op = "real" -> IF e.out = e.want /\ e.fast THEN {s} ELSE {}
    [] e.op = "memory" ->
         LET top == IF e.before[1] = -1 \/ e.before[1] > e.size + e.lim THEN e.size + e.lim
                    ELSE e.before[1]
             room == e.inside - e.size
         IN
         IF /\ e.after = e.before
            /\ e.inside <= top + 1 /\ e.inside >= top - 32
            /\ IF e.raises THEN e.out = "Boom"
               ELSE /\ e.alloc > room => e.out = "MemoryError"
                    /\ (2 * e.alloc) + 16 <= room => e.out = "ok"
                    /\ e.out \in {"ok", "MemoryError"}
         THEN {s} ELSE {}
    [] e.op = "use" -> IF e.same THEN {s} ELSE {}
    \* messages
    [] e.op = "config" -> {[s EXCEPT !.cfg = [quiet |-> e.quiet, verbose |-> e.verbose]]}
    [] e.op = "print" -> {[s EXCEPT !.print = e.on]}
    [] e.op = "call" -> {[s EXCEPT !.call = e.id]}
    [] e.op = "msg" -> Seen(Emit(s, e.level, e.text, e.ctxt), e)
    [] e.op = "file" ->
         IF e.ok THEN Seen([s EXCEPT !.file = e.id,
                                     !.files[e.id] = IF e.append THEN Append(@, "Starting Hachoir")
                                                     ELSE <<"Starting Hachoir">>], e)
         ELSE Seen(Emit([s EXCEPT !.file = 0], INFO, "[Log] setFilename() fails", ""), e)
    [] e.op = "shutdown" ->
         Seen(IF s.file = 0 THEN s ELSE [s EXCEPT !.files[s.file] = Append(@, "Stop Hachoir")], e)
    \* events
    [] e.op = "connect" -> {[s EXCEPT !.hs = Append(@, [set |-> e.set, name |-> e.name, id |-> e.id, bad |-> e.bad])]}
    [] e.op = "event" ->
         LET q == Called(s.hs, e.set, e.name)
         IN IF /\ e.called = q /\ e.args
               /\ e.raised = (\E i \in 1..Len(Heard(s.hs, e.set, e.name)) : Heard(s.hs, e.set, e.name)[i].bad)
            THEN {s} ELSE {}
GuAllow(s, e) ==
  CASE e.op = "leave" -> [frame |-> TopF(s)]
    [] e.op \in {"expire", "look"} -> [frame |-> TopF(s)]
    [] e.op = "event" -> [called |-> Called(s.hs, e.set, e.name)]
    [] e.op = "msg" -> [s |-> Emit(s, e.level, e.text, e.ctxt)]
    [] OTHER -> [n |-> Len(s.stack)]
=============================================================================
