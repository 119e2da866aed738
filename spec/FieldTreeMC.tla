----------------------------- MODULE FieldTreeMC -----------------------------
(***************************************************************************)
(* All small parser programs on all truncations of a source, fed lazily in *)
(* every order.  State: program, source, and how many fields of each set   *)
(* have been parsed; accesses feed one set up to what they need.           *)
(***************************************************************************)
EXTENDS FieldPaths, Json
CONSTANTS Lazy, Export, Big
VARIABLES prog, n, fed, hist, T
vars == <<prog, n, fed, hist, T>>

It == [k |-> "leaf", nm |-> "", ix |-> FALSE, w |-> 0, ref |-> "", mul |-> 0, up |-> 0, own |-> "",
       rep |-> "", loop |-> FALSE, prog |-> <<>>, skb |-> FALSE, peek |-> 0]
L(nm, w) == [It EXCEPT !.nm = nm, !.w = w]
X(w) == [It EXCEPT !.nm = "x", !.w = w, !.ix = TRUE]
Err == [It EXCEPT !.k = "err"]
Lp(it) == [it EXCEPT !.loop = TRUE]
S(nm, w, p) == [It EXCEPT !.k = "set", !.nm = nm, !.ix = nm = "s", !.w = w, !.prog = p]
Pad(w) == [It EXCEPT !.k = "pad", !.w = w]
Ref(nm, r) == [It EXCEPT !.nm = nm, !.ref = r, !.w = 1, !.mul = 3]

Own(nm, f, w, m, p) == [S(nm, w, p) EXCEPT !.own = f, !.mul = m]
UpRef(nm, r) == [Ref(nm, r) EXCEPT !.up = 1]
Rep(it, r) == [it EXCEPT !.rep = r]

\* every byte is 0x49 = 0100 1001: values of short fields vary with place
Src(len) == [i \in 1..len |-> IF i % 2 = 1 THEN 73 ELSE 172]

Inner == {<<>>, <<L("a", 3)>>, <<X(2), X(5)>>, <<L("a", 4), Err>>, <<Err>>,
          <<Lp(X(6))>>, <<L("a", 2), Ref("b", "a")>>, <<X(1), Pad(9)>>,
          <<L("a", 4), L("a", 4)>>}
Inner2 == {<<X(3), S("u", 0, <<L("a", 2), Ref("b", "a")>>)>>,
           <<S("k", 7, <<L("a", 3)>>), L("b", 2)>>,
           <<S("u", 0, <<Lp(X(6))>>)>>}
Leaves == {L("a", 3), X(4), X(9), Err, Pad(10), Lp(X(5))}
Owned == {Own("s", "a", w, m, p) : w \in {0, 4, 7}, m \in {1, 5},
            p \in {<<L("a", 3), L("b", 2)>>, <<L("a", 2)>>, <<X(2), L("a", 3), Lp(X(3))>>,
                   <<Err>>, <<L("a", 4), Err>>,
                   <<L("a", 3), S("u", 0, <<UpRef("b", "a")>>)>>,
                   <<L("a", 2), Rep(X(2), "a"), L("c", 1)>>}}
Sets == Owned \cup {S("s", w, p) : w \in {0, 6, 13}, p \in Inner \cup Inner2}
        \cup {Lp(S("s", w, p)) : w \in {0, 6}, p \in Inner \ {<<>>}}
Second == IF Big THEN Leaves \cup Sets
          ELSE Leaves \cup {S("s", 6, <<X(2), X(5)>>), S("s", 0, <<L("a", 2), Ref("b", "a")>>),
                            Own("s", "a", 4, 1, <<X(2), L("a", 3), Lp(X(3))>>), Lp(S("s", 0, <<L("a", 4), Err>>))}
All == {<<a, b>> : a \in Leaves \cup Sets, b \in Second}
\* (a field of the enclosing set is only referred to when it exists)
\* sets of which the program reads fields before it adds them
Peek(k, it) == [it EXCEPT !.peek = k]
PeekIn == {<<X(2), X(5), X(9)>>, <<S("u", 0, <<X(3), X(7)>>), X(4)>>, <<Peek(1, S("u", 20, <<X(3), X(6)>>))>>,
           <<X(1), Peek(2, S("u", 16, <<X(3), S("v", 9, <<X(4)>>)>>)), X(4)>>, <<L("a", 4), Lp(X(6))>>,
           <<L("a", 4), Ref("b", "a"), Err>>, <<L("a", 30), Ref("b", "a")>>, <<Err>>,
           <<X(3), Own("v", "a", 7, 2, <<X(1), L("a", 3), L("b", 2)>>), X(9)>>}
Peeked == {<<a, Peek(k, S("s", w, p)), b>> : a \in {X(3), L("a", 9)}, k \in 1..4, w \in {9, 14, 30},
             p \in PeekIn, b \in {X(4), Err}}
Few == {<<a, S("s", w, p), b>> : a \in {X(3), Lp(X(5)), L("a", 9)}, w \in {0, 13},
            p \in Inner2 \cup {<<X(2), X(5)>>, <<L("a", 4), Err>>},
            b \in {X(4), Err, Own("s", "a", 7, 2, <<X(1), L("a", 3), L("b", 2)>>),
                   S("s", 7, <<L("a", 3), L("a", 2)>>)}}
Programs == IF Lazy THEN Few ELSE All \cup Peeked

\* F06: seekable sets, as the root and nested
Seek(w) == [It EXCEPT !.k = "seek", !.w = w]
Jump(w) == [Seek(w) EXCEPT !.mul = 1]
K(nm, w, p) == [S(nm, w, p) EXCEPT !.skb = TRUE]
Moves == {Seek(w) : w \in {0, 3, 7, 12, 40}} \cup {Jump(w) : w \in {2, 9}}
Reads == {L("a", 3), X(4), L("b", 9), Err, S("s", 0, <<L("a", 2), X(5)>>), S("s", 6, <<L("a", 4)>>)}
Inner3 == {<<a, m, b>> : a \in {L("a", 3), X(4)}, m \in Moves, b \in {X(2), L("b", 9), Err, Seek(6)}}
          \cup {<<Seek(20)>>, <<L("a", 4), Seek(40)>>, <<Seek(7), L("a", 2), Seek(0)>>}
Skip == {<<a, m, b, c>> : a \in Reads, m \in Moves, b \in Reads \cup Moves, c \in {X(3), Seek(1), Err}}
Nest == {<<a, K("k", w, p), b>> : a \in {L("a", 3), Seek(5), Seek(30)}, w \in {0, 6, 13}, p \in Inner3,
            b \in {X(4), Seek(1)}}
SeekPrograms == Skip \cup Nest
NestPrograms == {<<a, K("k", w, p), b>> : a \in {L("a", 3), X(9)}, w \in {0, 6, 13}, p \in Inner3,
                   b \in {X(4), Err}}
RootSkb == FALSE
Yes == TRUE
FullTree == TreeOf(prog, Src(n), TRUE, RootSkb)

Init == /\ prog \in Programs /\ n \in 1..4 /\ hist = <<>>
        /\ fed = "/" :> 0 /\ T = Table(FullTree, "/", 0, "", 0)

\* sets which have been met so far
Seen == DOMAIN fed
Feed(p, upto) ==
  LET t == T
      ch == t[p].ch
      new == {ch[i] : i \in (fed[p] + 1)..upto}
      \* an undetermined set is parsed completely when it is added, and with
      \* it everything undetermined inside
      RECURSIVE Eager(_)
      Eager(q) == IF ~t[q].set THEN <<>>
                  ELSE FoldSeq(LAMBDA c, acc : acc @@ Eager(c), q :> t[q].pre,
                               SubSeq(t[q].ch, 1, t[q].pre))
  IN fed' = FoldSeq(LAMBDA i, acc : acc @@ Eager(ch[i]),
                    (p :> (IF upto > fed[p] THEN upto ELSE fed[p])) @@ fed,
                    [i \in 1..Max2(0, upto - fed[p]) |-> fed[p] + i])
Log(x) == /\ hist' = Append(hist, x)
          /\ (Export => PrintT("SCRIPT " \o ToJson([prog |-> prog, n |-> n, ops |-> hist'])))
Next == /\ Lazy
        /\ \E p \in Seen :
             LET m == Len(T[p].ch) IN
             \/ \E i \in 1..m : Feed(p, i) /\ Log([op |-> "idx", at |-> p, i |-> i - 1])
             \/ Feed(p, m) /\ Log([op |-> "len", at |-> p])
        /\ UNCHANGED <<prog, n, T>>
Spec == Init /\ [][Next]_vars
View == <<prog, n, fed>>

---------------------------------------------------------------------------
\* F04: a field's path leads back to it from everywhere, and arrays list
\* exactly the fields so numbered, in order
Whole == [T |-> T, fed |-> [p \in DOMAIN T |-> Len(T[p].ch)]]
RECURSIVE Chain(_)
Chain(p) == IF T[p].up = "" THEN <<>> ELSE Append(Chain(T[p].up), T[p].name)
Named1(ns) == [i \in 1..Len(ns) |-> [nm |-> ns[i], up |-> -1]]
Leads == hist = <<>> => \A p \in DOMAIN T :
  /\ Resolve(Whole, "/", Named1(Chain(p)), FALSE, None).p = p
  /\ \A q \in DOMAIN T :
       LET c == Chain(q)
           d == Chain(p)
           C == {k \in 0..Min2(Len(c), Len(d)) : SubSeq(c, 1, k) = SubSeq(d, 1, k)}
           k == CHOOSE x \in C : \A y \in C : y <= x
           rel == [i \in 1..(Len(c) - k) |-> [nm |-> "", up |-> 1]]
                  \o Named1(SubSeq(d, k + 1, Len(d)))
           jump == <<[nm |-> "", up |-> Len(c) - k]>> \o Named1(SubSeq(d, k + 1, Len(d)))
       IN Resolve(Whole, q, rel, FALSE, None).p = p /\ Resolve(Whole, q, jump, FALSE, None).p = p
Arrays == hist = <<>> => \A p \in DOMAIN T : \A nm \in {"x", "s", "a", "b", "u", "padding"} :
  LET m == Members(Whole, p, nm, 0)
      all == {i \in 1..Len(T[p].ch) : \E k \in 0..20 :
                T[T[p].ch[i]].name = nm \o "[" \o ToString(k) \o "]"}
  IN {m[i] : i \in 1..Len(m)} = {T[p].ch[i] : i \in all}
     /\ \A i \in 1..(Len(m) - 1) : T[m[i]].a < T[m[i + 1]].a

\* F01: whatever the program, the finished sets tile their bits
Tiling == hist = <<>> => AllTile(FullTree)
\* F03: what lies wholly before the cut is as in the longer source, except
\* inside sets of undetermined size which the cut falls into (kept or
\* dropped as a whole).  A set which turns out smaller than what was read to
\* learn its size counts with what was read.
RECURSIVE Kept(_, _, _, _)
Kept(full, cut, org, end) ==
  LET Before(i) == org + full[i].a + Max2(full[i].sz, full[i].ext) < end IN
  \A i \in 1..Len(full) :
    (\A j \in 1..(i - 1) : Before(j)) =>
    IF Before(i) THEN i <= Len(cut) /\ cut[i] = full[i]
    ELSE IF org + full[i].a < end /\ i <= Len(cut) /\ full[i].k = "set" /\ ~full[i].und /\ cut[i].k = "set"
         THEN Kept(full[i].ch, cut[i].ch, org + full[i].a, end)
         ELSE TRUE
\* loops and errors at the end of the source depend on where it ends, so the
\* comparison is made for fields ending strictly before the cut
Prefix == hist = <<>> => \A m \in 1..(n - 1) :
            Kept(FullTree.ch, TreeOf(prog, Src(m), TRUE, RootSkb).ch, 0, 8 * m)
\* laziness: a set is never fed beyond what its accesses asked for
NeverAhead == \A p \in Seen : fed[p] <= Len(T[p].ch)
Confluent == [][\A p \in Seen : p \in DOMAIN fed' /\ fed'[p] >= fed[p]]_vars
=============================================================================
