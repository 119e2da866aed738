----------------------------- MODULE MetadataMC -----------------------------
(* All short histories of additions to a few keys.                          *)
EXTENDS Metadata
CONSTANTS Depth, Width
VARIABLES data, log

cfg == [raw |-> FALSE, max |-> Width]
Str(s) == [k |-> "str", s |-> s, n |-> 0, f |-> 0, u |-> s]
I(n, f) == [k |-> IF f = 0 THEN "int" ELSE "num", s |-> <<>>, n |-> n, f |-> f, u |-> <<>>]
Texts == UNION {[1..k -> {97, 98}] : k \in 0..3} \cup {<<97, 32>>, <<10, 97>>, <<97, 13, 10, 98>>, <<97, 10, 98>>}
Nums == {I(0, 0), I(1, 0), I(1, 4), I(20000, 0), I(20000, 1), I(-1, 0)}
Inputs == {<<"title", Str(s)>> : s \in Texts} \cup {<<"width", x>> : x \in Nums}
           \cup {<<"nb_page", x>> : x \in {I(3, 0), Str(<<97>>), Str(<<97, 98>>), I(20001, 0)}}
           \cup {<<"track_number", Str(s)>> : s \in {<<51, 47, 52>>, <<48, 47, 52>>, <<51>>, <<47>>, <<97, 47, 53>>}}
           \cup {<<"creation_date", Str(s)>> : s \in {<<50, 48, 48, 52>>, <<50, 48, 48, 52, 45, 48, 49, 45, 48, 49>>,
                     <<49, 56, 52, 57>>, <<50, 48, 48, 52, 45, 49, 51, 45, 48, 49>>}}

Init == data = [k \in {} |-> <<>>] /\ log = <<>>
Next == /\ Len(log) < Depth
        /\ \E c \in Inputs : /\ data' = Add(data, c[1], c[2], <<>>, cfg)
                              /\ log' = Append(log, c)
Spec == Init /\ [][Next]_<<data, log>>

Vals(key) == [i \in 1..Len(Get(data, key)) |-> Get(data, key)[i].v]
\* what a text added to a key is kept as
Clean(s) == Cut_(Newlines(Strip2(s, Blank)), Width)
Given(key) == SelectSeq(log, LAMBDA c : c[1] = key)

\* no value twice, no text which another extends
Apart == \A key \in DOMAIN data : \A i, j \in 1..Len(Vals(key)) : i # j =>
           /\ ~SameVal(Vals(key)[i], Vals(key)[j])
           /\ Vals(key)[i].k = "str" /\ Vals(key)[j].k = "str" =>
                ~IsPrefixOf(Vals(key)[i].s, Vals(key)[j].s)
\* no text lost: it is there, or a longer one is
Kept == \A i \in 1..Len(log) : log[i][1] \in {"title", "nb_page"} /\ log[i][2].k = "str" =>
          LET w == Clean(log[i][2].s) IN
          w = <<>> \/ \E j \in 1..Len(Vals(log[i][1])) :
                        Vals(log[i][1])[j].k = "str" /\ IsPrefixOf(w, Vals(log[i][1])[j].s)
NumKept == \A i \in 1..Len(log) : log[i][1] = "width" =>
             (log[i][2].f = 0 /\ log[i][2].n \in 1..20000)
             = (\E j \in 1..Len(Vals("width")) : SameVal(Vals("width")[j], log[i][2]))
\* nothing invented, nothing elsewhere
Known == /\ \A key \in {"title", "nb_page", "width"} : \A j \in 1..Len(Vals(key)) :
              \E i \in 1..Len(log) : log[i][1] = key /\ IF log[i][2].k = "str"
                 THEN Vals(key)[j].k = "str" /\ Clean(log[i][2].s) = Vals(key)[j].s
                 ELSE SameVal(log[i][2], Vals(key)[j])
         /\ DOMAIN data \subseteq {log[i][1] : i \in 1..Len(log)} \cup {"track_total"}
         /\ Get(data, "track_total") # <<>> =>
              \E i \in 1..Len(log) : log[i][1] = "track_number" /\ 47 \in ToSet(log[i][2].s)
         /\ \A j \in 1..Len(Vals("creation_date")) :
              Vals("creation_date")[j].k = "date" /\ Vals("creation_date")[j].s = <<2004, 1, 1>>
\* order of arrival: an item sits where the first text of its family came
First(key, v) == LET F == {i \in 1..Len(log) : log[i][1] = key /\
                             IF v.k = "str" THEN log[i][2].k = "str" /\ Clean(log[i][2].s) # <<>>
                                                 /\ IsPrefixOf(Clean(log[i][2].s), v.s)
                             ELSE SameVal(log[i][2], v)}
                 IN CHOOSE i \in F : \A j \in F : i <= j
InOrder == \A i, j \in 1..Len(Vals("width")) : i < j => First("width", Vals("width")[i]) < First("width", Vals("width")[j])
\* every export lists every value once, by priority
Listed == \A p \in {-1, 100, 205, 301, 999} : \A human \in {TRUE, FALSE} :
            LET R == Rows(data, p)
                N == FoldSeq(LAMBDA i, acc : acc + Len(data[Table[i].key]), 0, R)
            IN /\ \A i, j \in 1..Len(R) : i < j => Table[R[i]].prio <= Table[R[j]].prio /\ R[i] # R[j]
               /\ {Table[R[i]].key : i \in 1..Len(R)} =
                    {k \in DOMAIN data : data[k] # <<>> /\ Row(k).prio <= Limit(p)}
               /\ Len(Fields(data, p, FALSE)) = Len(R)
Inv == Apart /\ Kept /\ NumKept /\ Known /\ InOrder /\ Listed
=============================================================================
