------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* Buffered search, on all texts: the stream is read in chunks of Chunk    *)
(* symbols; what is kept of the previous chunks is one symbol less than    *)
(* the needle.  Checked: the answer is the first occurrence inside         *)
(* [from, to), wherever it lies relative to the chunks; and only what is   *)
(* needed is read (the search of a live source does not run ahead).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, L, Chunk, Export
VARIABLES text, needle, from, to, pos, buf, ans
vars == <<text, needle, from, to, pos, buf, ans>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Running == -2
NotFound == -1
Cut(s, a, b) == SubSeq(s, a + 1, b)
At(s, nd, i) == i + Len(nd) <= Len(s) /\ \A j \in 1..Len(nd) : s[i + j] = nd[j]
First(s, nd) == LET C == {i \in 0..Len(s) : At(s, nd, i)}
                IN IF C = {} THEN NotFound ELSE CHOOSE i \in C : \A j \in C : i <= j
Words(n) == [1..n -> {0, 1}]

Init == /\ text \in UNION {Words(n) : n \in 1..N}
        /\ needle \in UNION {Words(n) : n \in 1..L}
        /\ from \in 0..Len(text) /\ to \in {NotFound} \cup 0..(Len(text) + 1)
        /\ pos = from /\ buf = <<>> /\ ans = Running
        /\ (Export => PrintT("SCRIPT " \o ToJson([text |-> text, needle |-> needle,
                                       from |-> from, to |-> to])))
End == IF to = NotFound THEN Len(text) ELSE Min2(to, Len(text))
Keep == LET k == Len(needle) - 1 IN IF Len(buf) <= k THEN buf ELSE Cut(buf, Len(buf) - k, Len(buf))

Step == /\ ans = Running /\ ~Export
        /\ IF pos >= End THEN ans' = NotFound /\ UNCHANGED <<pos, buf>>
           ELSE LET p2 == Min2(pos + Chunk, End)
                    b2 == Keep \o Cut(text, pos, p2)
                    f  == First(b2, needle)
                IN /\ pos' = p2 /\ buf' = b2
                   /\ ans' = IF f # NotFound THEN p2 - Len(b2) + f ELSE Running
        /\ UNCHANGED <<text, needle, from, to>>
Spec == Init /\ [][Step]_vars

Right == LET w == First(Cut(text, from, Max2(from, End)), needle)
         IN ans # Running => ans = (IF w = NotFound THEN NotFound ELSE from + w)
Lazy  == ans >= 0 => pos <= Max2(from + Chunk, ans + Len(needle) + Chunk - 1)
Bound == Len(buf) <= Chunk + L - 1
Ends  == pos <= Max2(from, End)
=============================================================================
