------------------------------ MODULE StringsMC ------------------------------
(***************************************************************************)
(* Finding the terminator of a string with a byte search: an occurrence    *)
(* which is not at a multiple of the character size is not the end; the    *)
(* search goes on from the next character.                                 *)
(***************************************************************************)
EXTENDS Strings, TLC
CONSTANTS N, Alpha
VARIABLES src, a, suf, from, res
vars == <<src, a, suf, from, res>>
Init == /\ src \in UNION {[1..n -> Alpha] : n \in 0..N}
        /\ a \in 0..1
        /\ suf \in {Suffix(f, cs, "BE") : f \in {"C", "UnixLine"},
                                          cs \in {"ASCII", "UTF-16-LE", "UTF-16-BE", "UTF-32LE", "UTF-32BE"}}
        /\ from = a /\ res = -2
Found(p) == LET Q == {k \in p..Len(src) : At(src, k, Len(suf)) = suf}
            IN IF Q = {} THEN -1 ELSE CHOOSE k \in Q : \A j \in Q : k <= j
Next == /\ res = -2
        /\ LET k == Found(from)
               u == Len(suf)
           IN IF k = -1 THEN res' = -1 /\ UNCHANGED from
              ELSE IF (k - a) % u = 0 THEN res' = k - a /\ UNCHANGED from
              ELSE from' = a + u * ((k - a + u - 1) \div u) /\ UNCHANGED res
        /\ UNCHANGED <<src, a, suf>>
Spec == Init /\ [][Next]_vars
Right == res # -2 => res = Terminator(src, a, suf)
Sane == res = -2 => Terminator(src, a, suf) \notin 0..(from - a - 1)
=============================================================================
