------------------------------- MODULE PipeMC -------------------------------
(***************************************************************************)
(* The pipe block cache, exhaustively: every sequence of byte reads on a   *)
(* source of N bytes with blocks of B bytes and a window of W blocks.      *)
(* The answer is assembled from cached blocks the way the implementation   *)
(* does it and compared with the source.                                   *)
(***************************************************************************)
EXTENDS Streams, Json
CONSTANTS N, B, W, MaxLen, Export
VARIABLES p, size, ans, hist

Source == [i \in 1..N |-> i]                  \* position coded
Block(b) == SubSeq(Source, b * B + 1, Min2(N, (b + 1) * B))

Init == p = PipeInit /\ size = Unknown /\ hist = <<>>
        /\ ans = [a |-> 0, len |-> 0, ok |-> TRUE, data |-> <<>>, first |-> 0]

Read(a, len) ==
  LET r  == PipeRead(p, N, B, W, a, len)
      b0 == a \div B
      b1 == Min2((a + len - 1) \div B, r.p.n - 1)
      d  == FlattenSeq([i \in 1..Max2(0, b1 - b0 + 1) |-> Block(b0 + i - 1)])
  IN /\ p' = r.p
     /\ size' = IF r.p.eof THEN N ELSE size
     /\ ans' = [a |-> a, len |-> len, ok |-> r.ok, first |-> p.first,
                data |-> IF r.ok THEN SubSeq(d, (a % B) + 1, Min2(Len(d), (a % B) + len)) ELSE <<>>]
     /\ hist' = Append(hist, <<a, len>>)
     /\ Export => PrintT("SCRIPT " \o ToJson(hist'))

Next == \E a \in 0..N, len \in 1..MaxLen : Read(a, len)
Spec == Init /\ [][Next]_<<p, size, ans, hist>>
View == <<p, size>>

\* exactly the source, or the available prefix of it
DataRight == ans.ok => ans.data = SubSeq(Source, ans.a + 1, Min2(N, ans.a + ans.len))
\* an error only for blocks which left the window
ErrorOnlyIfOld == ~ans.ok => ans.a \div B < Max2(0, p.n - W)
SizeTruth == size \in {Unknown, N} /\ (size = N <=> p.eof)
NoHole == ToSet(p.lru) = p.first..(p.n - 1) /\ Len(p.lru) = p.n - p.first
Window == p.n - p.first >= Min2(p.n, W)
\* a discarded block is never the most recently used one
\* checked on every transition (the answer is not part of the view)
Answers == [][(DataRight /\ ErrorOnlyIfOld)']_<<p, size, ans, hist>>
SizeStable == [][size # Unknown => size' = size]_<<p, size, ans, hist>>
=============================================================================
