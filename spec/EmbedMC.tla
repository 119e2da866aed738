------------------------------- MODULE EmbedMC -------------------------------
(***************************************************************************)
(* The two lazy algorithms behind embedded data, against what they have to *)
(* deliver (F07):                                                          *)
(*   "frag"  FragmentedStream: the fragments of a chain are discovered     *)
(*           while reading; any sequence of reads                          *)
(*   "comp"  CompressedStream: a decompressor gives its output in pieces   *)
(*           of any size, less, more than or exactly what was asked        *)
(* Units are bytes.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Kind, Export, D
VARIABLES x,    \* the chain: <<[a, z]>>, or the compressed input: output length of each input byte
          s,    \* state of the algorithm
          out,  \* last answer: [ok, data, want, at]
          hist
vars == <<x, s, out, hist>>
None == [ok |-> TRUE, data |-> <<>>, want |-> 0, at |-> 0, short |-> FALSE]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Sum(q) == FoldSeq(LAMBDA v, acc : acc + v, 0, q)

---------------------------------------------------------------------------
(* Fragments: source positions are their own content (unit p holds p).     *)
Chains == UNION {[1..n -> [a : {0, 3, 5}, z : 1..2]] : n \in 1..3}
Whole(c) == FlattenSeq([i \in 1..Len(c) |-> [k \in 1..c[i].z |-> c[i].a + k - 1]])
T(c) == Len(Whole(c))
\* fr = fragments discovered (a: position in the whole), nx = index of the next one
FragInit(c) == [fr |-> <<[p |-> 0, a |-> c[1].a, z |-> c[1].z]>>, nx |-> IF Len(c) > 1 THEN 2 ELSE 0,
                cur |-> IF Len(c) = 1 THEN c[1].z ELSE 0, size |-> IF Len(c) = 1 THEN c[1].z ELSE -1]
RECURSIVE More(_, _, _, _)
More(c, f, p, end) == \* p: position of the last fragment discovered
  LET last == f.fr[Len(f.fr)]
      p2 == p + last.z
  IN IF p2 >= end
     THEN [f EXCEPT !.cur = end, !.size = IF p2 = end /\ f.nx = 0 THEN end ELSE @]
     ELSE IF f.nx = 0 THEN [f EXCEPT !.cur = p2, !.size = p2]
     ELSE More(c, [f EXCEPT !.fr = Append(@, [p |-> p2, a |-> c[f.nx].a, z |-> c[f.nx].z]),
                            !.nx = IF f.nx < Len(c) THEN @ + 1 ELSE 0], p2, end)
FeedTo(c, f, end) == IF f.cur < end /\ f.size = -1 THEN More(c, f, f.fr[Len(f.fr)].p, end) ELSE f
\* the data of [a, a+n) from the fragments discovered
Gather(f, a, n) == FlattenSeq([i \in 1..Len(f.fr) |->
  LET q == f.fr[i]
      lo == Max2(a, q.p)
      hi == Min2(a + n, q.p + q.z)
  IN IF lo < hi THEN [k \in 1..(hi - lo) |-> q.a + (lo - q.p) + k - 1] ELSE <<>>])
FragRead(a, n) ==
  LET f == FeedTo(x, s, a + n)
      m == IF f.size # -1 /\ a + n > f.size THEN Max2(0, f.size - a) ELSE n
  IN /\ s' = f
     /\ out' = [ok |-> m = n, data |-> Gather(f, a, m), want |-> n, at |-> a, short |-> m < n]
FragRight ==
  /\ out.data = SubSeq(Whole(x), out.at + 1, Min2(T(x), out.at + out.want))
  /\ out.ok = (out.at + out.want <= T(x))
  /\ s.size \in {-1, T(x)} /\ (out.short => s.size = T(x)) /\ s.cur <= T(x)

---------------------------------------------------------------------------
(* Decompression: input byte i gives x[i] output units; output unit k is k. *)
Inputs == UNION {[1..n -> 0..3] : n \in 0..3}
Pend(st, upto) == Sum(SubSeq(x, 1, upto)) - st.gave    \* output ready
CompInit == [fed |-> 0, gave |-> 0, buf |-> 0]          \* buf: units kept by the stream
\* what the decompressor gives when size is asked: all when there is less,
\* otherwise exactly size, or (over) everything
Gives(st, upto, size, over) == IF Pend(st, upto) <= size THEN Pend(st, upto)
                               ELSE IF over THEN Pend(st, upto) ELSE size
RECURSIVE Loop(_, _, _, _, _)
\* got = units collected, left = wanted still; chunks of ch input bytes
Loop(st, got, left, over, ch) ==
  IF left <= 0 THEN [st |-> st, got |-> got]
  ELSE LET n == Min2(Len(x) - st.fed, ch) IN
  IF n = 0 THEN [st |-> [st EXCEPT !.buf = 0], got |-> got]
  ELSE LET d == Gives(st, st.fed + n, left, over)
       IN Loop([fed |-> st.fed + n, gave |-> st.gave + d, buf |-> Max2(0, d - left)],
               got + Min2(d, left), left - d, over, ch)
CompRead(size, over, ch) ==
  LET d0 == Min2(s.buf, size)
      l0 == size - s.buf
      r == IF l0 <= 0 THEN [st |-> [s EXCEPT !.buf = @ - size], got |-> d0]
           ELSE LET d1 == Gives(s, s.fed, l0, over)
                IN Loop([s EXCEPT !.gave = @ + d1, !.buf = Max2(0, d1 - l0)],
                        d0 + Min2(d1, l0), l0 - d1, over, ch)
      start == s.gave - s.buf
  IN /\ s' = r.st
     /\ out' = [ok |-> TRUE, data |-> [k \in 1..r.got |-> start + k], want |-> size, at |-> start,
                short |-> r.got < size]
\* read so far = everything given minus what is kept; a short read is the end
CompRight == /\ s.gave <= Sum(x) /\ s.buf >= 0
             /\ s.gave - s.buf = out.at + Len(out.data)
             /\ Len(out.data) <= out.want
             /\ out.short => s.gave - s.buf = Sum(x)
---------------------------------------------------------------------------
Init == /\ x \in (IF Kind = "frag" THEN Chains ELSE Inputs)
        /\ s = IF Kind = "frag" THEN FragInit(x) ELSE CompInit
        /\ out = None /\ hist = <<>>
Log(y) == /\ hist' = Append(hist, y)
          /\ (Export => PrintT("SCRIPT " \o ToJson([x |-> x, ops |-> hist'])))
Next == /\ Len(hist) < D /\ UNCHANGED x
        /\ IF Kind = "frag"
           THEN \E a \in 0..6, n \in 1..6 : FragRead(a, n) /\ Log(<<a, n>>)
           ELSE \E z \in 1..4, over \in BOOLEAN, ch \in 1..2 : CompRead(z, over, ch) /\ Log(<<z, over, ch>>)
Spec == Init /\ [][Next]_vars
View == <<x, s, out>>
Right == IF Kind = "frag" THEN FragRight ELSE CompRight
=============================================================================
