------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace validation kernel shared by all trace specifications.             *)
(*                                                                         *)
(* The file named by the environment variable TRACES holds one recorded    *)
(* execution of the implementation per line (a JSON object with a sequence *)
(* "ev" of events).  All of them are explored as independent behaviours:   *)
(* `tid' picks the trace, `l' is the next event, `S' is the set of         *)
(* specification states compatible with what has been observed so far      *)
(* (subset construction, so the verdict on a trace is total and does not   *)
(* depend on the order in which TLC explores non-deterministic choices).   *)
(*                                                                         *)
(* Step(s, e)  = set of specification states reachable from s by an        *)
(*               action which explains the event e, observations included. *)
(* Allow(s, e) = what the specification would have allowed (diagnostics).  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitStates(_), Step(_, _), Allow(_, _)

VARIABLES tid, l, S

Traces == ndJsonDeserialize(IOEnv.TRACES)

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ S = InitStates(Traces[tid])

TraceNext ==
  LET ev == Traces[tid].ev IN
  /\ l <= Len(ev)
  /\ UNCHANGED tid
  /\ LET e == ev[l]
         T == UNION {Step(s, e) : s \in S}
     IN IF T = {}
        THEN /\ PrintT("REJECT " \o ToJson([tid |-> tid, l |-> l,
                                  allow |-> {Allow(s, e) : s \in S}]))
             /\ l' = Len(ev) + 2
             /\ S' = {}
        ELSE /\ l' = l + 1
             /\ S' = T

TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, S>>
=============================================================================
