------------------------------ MODULE ListingMC ------------------------------
(* The walk itself, one field at a time, over a tree whose sets are filled    *)
(* as they are read and forgotten when they were walked: for every small tree *)
(* and every pattern the matches are exactly those of the definition.         *)
EXTENDS Listing
CONSTANT Size
VARIABLES tree, pat, case, stack, out, filled

Vals == {<<>>, <<97>>, <<65>>, <<98, 97>>}
Leaf(k, v, no) == [k |-> k, n |-> <<120>>, a |-> 0, v |-> v, no |-> no, ch |-> <<>>]
Leaves == {Leaf("str", v, FALSE) : v \in Vals} \cup {Leaf("str", <<>>, TRUE), Leaf("other", <<97>>, FALSE)}
Node(ch) == [k |-> "set", n |-> <<115>>, a |-> 0, v |-> <<>>, no |-> FALSE, ch |-> ch]
\* distinct names and addresses
Named(ch) == [i \in 1..Len(ch) |-> [ch[i] EXCEPT !.n = <<48 + i>>, !.a = 8 * i]]
RECURSIVE Trees(_)
\* the sequences of nodes with n nodes in all
Trees(n) == IF n = 0 THEN {<<>>}
            ELSE UNION {{Append(h, l) : h \in Trees(n - 1), l \in Leaves},
                        UNION {{Append(h, Node(Named(c))) : h \in Trees(n - 1 - k), c \in Trees(k)} : k \in 0..(n - 1)}}
Roots == {[Node(Named(c)) EXCEPT !.n = <<>>] : c \in UNION {Trees(n) : n \in 0..Size}}
RECURSIVE At(_, _)
At(t, at) == IF at = <<>> THEN t ELSE At(t.ch[Head(at)], Tail(at))

\* a frame of the walk: the place of a set, and the next field
Init == /\ tree \in Roots /\ pat \in {<<>>, <<97>>, <<65>>} /\ case \in BOOLEAN
        /\ stack = <<[at |-> <<>>, i |-> 1]>> /\ out = <<>> /\ filled = {<<>>}
Top == stack[Len(stack)]
Up == SubSeq(stack, 1, Len(stack) - 1)
RECURSIVE PathOf(_, _)
PathOf(t, at) == IF at = <<>> THEN <<>> ELSE <<47>> \o t.ch[Head(at)].n \o PathOf(t.ch[Head(at)], Tail(at))
RECURSIVE AddrOf(_, _)
AddrOf(t, at) == IF at = <<>> THEN 0 ELSE t.ch[Head(at)].a + AddrOf(t.ch[Head(at)], Tail(at))
Walk == /\ stack # <<>> /\ UNCHANGED <<tree, pat, case>>
        /\ LET set == At(tree, Top.at) IN
           IF Top.i > Len(set.ch)
           THEN /\ stack' = Up /\ UNCHANGED out
                /\ filled' = IF Top.at = <<>> THEN filled ELSE filled \ {Top.at}
           ELSE LET c == set.ch[Top.i]
                    on == Append(Up, [Top EXCEPT !.i = @ + 1])
                    at == Append(Top.at, Top.i)
                IN IF c.k = "set" THEN /\ stack' = Append(on, [at |-> at, i |-> 1])
                                       /\ filled' = filled \cup {at} /\ UNCHANGED out
                   ELSE /\ stack' = on /\ UNCHANGED filled
                        /\ out' = IF Passes(c, pat, case)
                                  THEN Append(out, [p |-> PathOf(tree, at), a |-> AddrOf(tree, at), v |-> c.v])
                                  ELSE out
Spec == Init /\ [][Walk]_<<tree, pat, case, stack, out, filled>>
Want == Found(tree, <<>>, 0, pat, case)
Prefix_ == IsPrefix(out, Want)
Whole == stack = <<>> => out = Want /\ filled = {<<>>}
\* only the sets on the way are kept
Little == \A at \in filled : at = <<>> \/ \E i \in 1..Len(stack) : stack[i].at = at
Once == \A i, j \in 1..Len(out) : i # j => out[i].p # out[j].p
Subset_ == case => \A i \in 1..Len(out) : \E j \in 1..Len(Found(tree, <<>>, 0, pat, FALSE)) :
                     Found(tree, <<>>, 0, pat, FALSE)[j] = out[i]
Inv == Prefix_ /\ Whole /\ Little /\ Once /\ Subset_
=============================================================================
