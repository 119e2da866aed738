------------------------------- MODULE Subfile -------------------------------
(***************************************************************************)
(* Search of the files embedded in some data (hachoir-subfile).            *)
(*                                                                         *)
(* The data: D.len bytes, all D.z but the fragments D.frags (sequence of   *)
(* [at, b], in order).  A kind of file (parser): its signatures (b: bytes, *)
(* -1 for any byte; off: place of the signature in the file), the test it  *)
(* makes (byte at voff is even, at least `need' bytes), its size (byte at  *)
(* zoff times zmul; zoff = -1: not known), and if the inside of the file   *)
(* is to be skipped.                                                       *)
(*                                                                         *)
(* An occurrence is a place s..e (bytes, e not included) which bears a     *)
(* signature: [s, e, at (beginning of the file), id, ok (accepted by the   *)
(* parser), size (-1 unknown), skip].                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

At(D, i) == LET C == {k \in 1..Len(D.frags) : D.frags[k].at <= i /\ i < D.frags[k].at + Len(D.frags[k].b)}
            IN IF C = {} THEN D.z
               ELSE LET k == CHOOSE k \in C : TRUE IN D.frags[k].b[i - D.frags[k].at + 1]
Bears(D, s, b) == /\ s + Len(b) <= D.len
                  /\ \A j \in 1..Len(b) : b[j] = -1 \/ At(D, s + j - 1) = b[j]
SizeOf(D, k, at) == IF k.zoff = -1 \/ at + k.zoff >= D.len THEN -1 ELSE At(D, at + k.zoff) * k.zmul
Accepts(D, k, at) == at + k.need <= D.len /\ at + k.voff < D.len /\ At(D, at + k.voff) % 2 = 0

Places(D) == UNION {{D.frags[f].at + j - 1 : j \in 1..Len(D.frags[f].b)} : f \in 1..Len(D.frags)}
Sigs(kinds) == UNION {{[k |-> kinds[i], m |-> kinds[i].magics[g]] : g \in 1..Len(kinds[i].magics)} : i \in 1..Len(kinds)}
\* every occurrence of a signature (whose first byte is never D.z) inside lo..hi
Occ(D, kinds, lo, hi) ==
  UNION {LET k == x.k
             b == x.m.b
         IN {LET at == s - x.m.off IN
             [s |-> s, e |-> s + Len(b), at |-> at, id |-> k.id, skip |-> k.skip,
              ok |-> at >= 0 /\ Accepts(D, k, at), size |-> IF at >= 0 THEN SizeOf(D, k, at) ELSE -1] :
               s \in {s \in Places(D) : lo <= s /\ s + Len(b) <= hi /\ Bears(D, s, b)}} :
         x \in Sigs(kinds)}

(* The report: what was found so far; files which begin inside a file to   *)
(* be skipped (before `next') are not looked at.                           *)
Nothing == [pos |-> -1, next |-> 0, done |-> {}]
\* nothing else hides the signature
Alone(c, C) == \A d \in C : d = c \/ ~(d.s <= c.s /\ c.s < d.e)
Wanted(c, C, st, lo) == c.ok /\ c.at >= st.next /\ c.at >= lo /\ Alone(c, C)
\* those which may come next
Nexts(C, st, lo) ==
  {c \in C \ st.done : /\ c.ok /\ c.at >= st.next /\ c.s >= st.pos
                       /\ \A d \in C \ st.done : Wanted(d, C, st, lo) /\ st.pos < d.s => d.s >= c.s}
Take(st, c) == [pos |-> c.s, next |-> IF c.skip /\ c.size >= 0 THEN c.at + c.size ELSE st.next,
                done |-> st.done \cup {c}]
Finished(C, st, lo) == ~\E d \in C \ st.done : Wanted(d, C, st, lo) /\ st.pos < d.s

(* What is said and written of a file of known size *)
TooBig == 100 * 1024 * 1024
MaxOf(a, b) == IF a < b THEN b ELSE a
=============================================================================
