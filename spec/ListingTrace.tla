----------------------------- MODULE ListingTrace -----------------------------
(* Recorded walks.  Header: trees, one for each file; a file which is no       *)
(* document has no tree.                                                       *)
EXTENDS Listing, TraceKit

LiInit(t) == {0}
T == Traces[tid]
RECURSIVE Descend(_, _, _, _)
Descend(n, at, p, a) == IF at = <<>> THEN [n |-> n, p |-> p, a |-> a]
                        ELSE LET c == n.ch[Head(at)] IN Descend(c, Tail(at), p \o <<47>> \o c.n, a + c.a)
RECURSIVE Upto(_, _)
\* the files which are read: those before the first one which can't be
Upto(s, fs) == IF fs = <<>> THEN <<>>
               ELSE IF T.trees[Head(fs)] = <<>> THEN <<>> ELSE <<Head(fs)>> \o Upto(s, Tail(fs))
Out(s, e) ==
  FlattenSeq([i \in 1..Len(Upto(s, e.files)) |->
    LET f == Upto(s, e.files)[i] IN
    Shown_(Found(T.trees[f][1], <<>>, 0, e.pat, e.o.case), e.o, T.names[f])])
Percent(s, e) ==
  FlattenSeq([i \in 1..Len(Upto(s, e.files)) |->
    LET f == Upto(s, e.files)[i]
        q == Found(T.trees[f][1], <<>>, 0, e.pat, e.o.case)
    IN [j \in 1..Len(q) |-> [a |-> q[j].a, size |-> T.trees[f][1].size]]])
PctOk(o, w) ==
               LET x == o * w.size - 1000 * w.a IN 2 * (IF x < 0 THEN -x ELSE x) <= w.size
LiStep(s, e) ==
  CASE e.op = "walk" ->
         LET d == Descend(T.trees[1][1], e.at, <<>>, 0)
         IN IF e.out = Found(d.n, d.p, d.a, e.pat, e.case) /\ e.raised = "" THEN {s} ELSE {}
    [] e.op = "run" ->
         LET want == Out(s, e)
             bad == Len(Upto(s, e.files)) < Len(e.files)
             broken == e.fail >= 0 /\ e.fail < Len(want)
         IN IF /\ e.lines = IF broken THEN SubSeq(want, 1, e.fail) ELSE want
               /\ e.raised = CASE broken /\ e.errno # "EPIPE" -> "OSError"
                               [] bad -> "SystemExit" [] OTHER -> ""
               /\ e.pct # <<>> => LET p == Percent(s, e) IN
                    /\ Len(p) = Len(e.pct) /\ \A i \in 1..Len(p) : PctOk(e.pct[i], p[i])
            THEN {s} ELSE {}
LiAllow(s, e) == IF e.op = "run" THEN [lines |-> Out(s, e)] ELSE
  LET d == Descend(T.trees[1][1], e.at, <<>>, 0) IN [out |-> Found(d.n, d.p, d.a, e.pat, e.case)]
=============================================================================
