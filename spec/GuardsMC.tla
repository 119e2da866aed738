------------------------------ MODULE GuardsMC ------------------------------
(* limitedTime() in small steps, nested to any depth up to D, with a timer   *)
(* which may expire between any two steps.                                   *)
(* A timer is [owner, left]; `owner' 0 is the caller's own timer.            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS D, T
VARIABLES stack, handler, timer, raised, lost

None_ == [owner |-> -1, left |-> 0]
\* frame: [pc, pending, old]
Init == /\ stack = <<>> /\ handler = 0 /\ raised = "no" /\ lost = 0
        /\ timer \in {None_} \cup {[owner |-> 0, left |-> n] : n \in 1..T}
Top == stack[Len(stack)]
Go(pc) == [stack EXCEPT ![Len(stack)].pc = pc]
Idle == IF stack = <<>> THEN TRUE ELSE Top.pc = "body"

Tick == /\ timer # None_ /\ timer.left > 0
        /\ timer' = [timer EXCEPT !.left = @ - 1]
        /\ stack' = [i \in 1..Len(stack) |->
                       IF stack[i].pending # None_ /\ stack[i].pending.left > 0
                       THEN [stack[i] EXCEPT !.pending.left = @ - 1] ELSE stack[i]]
        /\ UNCHANGED <<handler, raised, lost>>
\* the signal: the handler which is installed raises, in the frame where we are
Expire == /\ timer # None_ /\ timer.left = 0 /\ raised = "no"
          /\ timer' = None_
          /\ IF handler = 0 THEN lost' = lost + 1 /\ UNCHANGED <<stack, handler, raised>>
             ELSE raised' = "timeout" /\ UNCHANGED <<stack, handler, lost>>
Enter == /\ Idle /\ raised = "no" /\ Len(stack) < D
         /\ stack' = Append(stack, [pc |-> "install", pending |-> timer, old |-> handler])
         /\ timer' = None_ /\ UNCHANGED <<handler, raised, lost>>
Install == /\ stack # <<>> /\ Top.pc = "install" /\ raised = "no"
           /\ handler' = Len(stack) /\ stack' = Go("arm") /\ UNCHANGED <<timer, raised, lost>>
Arm == /\ stack # <<>> /\ Top.pc = "arm" /\ raised = "no"
       /\ \E n \in 1..T : timer' = [owner |-> Len(stack), left |-> n]
       /\ stack' = Go("body") /\ UNCHANGED <<handler, raised, lost>>
Finish == /\ stack # <<>> /\ Top.pc = "body" /\ raised = "no"
          /\ \/ stack' = Go("disarm") /\ UNCHANGED raised
             \/ stack' = Go("disarm") /\ raised' = "other"
          /\ UNCHANGED <<handler, timer, lost>>
\* an exception in the body, while arming or while disarming goes to the clean-up
Unwind == /\ stack # <<>> /\ raised = "timeout" /\ Top.pc \in {"arm", "body", "disarm"}
          /\ stack' = Go(IF Top.pc = "disarm" THEN "restore" ELSE "disarm")
          /\ timer' = None_
          /\ raised' = "unwinding" /\ UNCHANGED <<handler, lost>>
Disarm == /\ stack # <<>> /\ Top.pc = "disarm" /\ raised # "timeout"
          /\ timer' = None_ /\ stack' = Go("restore") /\ UNCHANGED <<handler, raised, lost>>
Restore == /\ stack # <<>> /\ Top.pc = "restore"
           /\ handler' = Top.old /\ stack' = Go("rearm") /\ UNCHANGED <<timer, raised, lost>>
Rearm == /\ stack # <<>> /\ Top.pc = "rearm"
         /\ timer' = IF Top.pending # None_ THEN Top.pending ELSE timer
         /\ stack' = Go("exit") /\ UNCHANGED <<handler, raised, lost>>
\* the exception goes on to the body of the call outside, which may catch it
Exit == /\ stack # <<>> /\ Top.pc = "exit"
        /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
        /\ raised' \in (IF raised \in {"unwinding", "other"} /\ Len(stack) > 1 THEN {"no", "again"} ELSE {"no"})
        /\ UNCHANGED <<handler, timer, lost>>
Again == /\ raised = "again" /\ stack # <<>> /\ Top.pc = "body"
         /\ stack' = Go("disarm") /\ raised' = "unwinding" /\ UNCHANGED <<handler, timer, lost>>
Next == Tick \/ Expire \/ Enter \/ Install \/ Arm \/ Finish \/ Unwind \/ Disarm \/ Restore \/ Rearm \/ Exit \/ Again
Spec == Init /\ [][Next]_<<stack, handler, timer, raised, lost>>
---------------------------------------------------------------------------
\* outside of every call the caller's handler is there, and only his timer may run
Clean == stack = <<>> => handler = 0 /\ (timer = None_ \/ timer.owner = 0)
\* in the body of a call its own handler is installed, and the timer is its own
Own == stack # <<>> /\ Top.pc = "body" /\ raised = "no" => handler = Len(stack)
\* no timer of a call inside is left to a call outside
NoLeak == timer.owner <= Len(stack)
\* the caller's timer is never forgotten: it runs, waits in a frame, or has expired
Kept == [][(\E x \in {timer} : x.owner = 0) =>
             \/ timer'.owner = 0 \/ lost' > lost
             \/ \E i \in 1..Len(stack') : stack'[i].pending.owner = 0]_<<stack, handler, timer, raised, lost>>
Waits == [][(\E i \in 1..Len(stack) : stack[i].pending.owner = 0 /\ stack[i].pc # "exit") =>
             (\E i \in 1..Len(stack') : stack'[i].pending.owner = 0) \/ timer'.owner = 0 \/ lost' > lost]_<<stack, handler, timer, raised, lost>>
Inv == Clean /\ Own /\ NoLeak
=============================================================================
