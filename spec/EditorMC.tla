------------------------------ MODULE EditorMC ------------------------------
(* All sequences of D edits of a small document with a nested set.          *)
EXTENDS Editor, Json
CONSTANTS D, Export
VARIABLES ch, ok, hist, gone, news, set
vars == <<ch, ok, hist, gone, news, set>>

L(nm, k, w) == [nm |-> nm, k |-> k, w |-> w, sgn |-> FALSE, en |-> "BE", fmt |-> "", cs |-> "",
                bom |-> <<>>, ch |-> <<>>, cls |-> "", pcs |-> ""]
Items == <<L("a", "int", 8),
           [L("s", "set", 0) EXCEPT !.ch = <<L("p", "bits", 3), L("q", "bits", 5)>>],
           [L("t", "str", 16) EXCEPT !.fmt = "Pascal8"]>>
Src == <<201, 90, 1, 65>>
N(nm, k, w, v) == [nm |-> nm, ix |-> FALSE, k |-> k, w |-> w, sgn |-> FALSE, fmt |-> "", cs |-> "",
                   v |-> v, ch |-> <<>>]
IntV(m) == [t |-> "int", neg |-> FALSE, m |-> m]
News == {<<N("x", "bits", 3, IntV(<<1, 1>>)), N("y", "int", 8, IntV(<<1>>))>>,
         <<N("a", "char", 8, [t |-> "char", c |-> 90])>>,
         <<[N("n", "set", 0, [t |-> "none"]) EXCEPT !.ch = <<N("p", "bits", 5, IntV(<<1>>))>>]>>,
         <<N("z", "int", 8, IntV(<<1, 0, 0, 0, 0, 0, 0, 0, 0>>))>>}
Vals == {IntV(<<1, 0, 1>>), IntV(<<1, 1, 1, 1>>), [t |-> "text", d |-> <<72, 105>>]}
Targets == {<<"a">>, <<"s">>, <<"s", "p">>, <<"s", "q">>, <<"t">>, <<"x">>, <<"n", "p">>}
Ch0 == Build(Items, Src, 0, "BE")
Init == /\ ch = Ch0 /\ ok = TRUE /\ hist = <<>> /\ gone = {} /\ news = 0 /\ set = {}
Log(e) == /\ hist' = Append(hist, e)
          /\ (Export /\ Len(hist') = D => PrintT("SCRIPT " \o ToJson([ops |-> hist'])))
Try(S) == IF S = {} THEN ok' = FALSE /\ ch' = ch ELSE ok' = TRUE /\ ch' \in S
\* leaves that are still those of the original
Kept(c) == SelectSeq(Leaves(c), LAMBDA x : ~x.ins)
RECURSIVE NewCount(_)
NewCount(c) == IF c = <<>> THEN 0
               ELSE (IF Head(c).ins THEN 1 ELSE IF IsSet(Head(c)) THEN NewCount(Head(c).ch) ELSE 0)
                    + NewCount(Tail(c))
Set_(p, v) == /\ Try(SetValue(ch, p, v)) /\ Log([op |-> "set", p |-> p, v |-> v])
              /\ set' = (IF ok' /\ ~At_(ch, p).ins THEN set \cup {p} ELSE set)
              /\ UNCHANGED <<gone, news>>
Del_(p) == /\ Try(Delete(ch, p)) /\ Log([op |-> "del", p |-> p]) /\ UNCHANGED set
           /\ gone' = (IF ok' /\ ~At_(ch, p).ins
                          /\ ~(Len(p) = 2 /\ At_(ch, <<p[1]>>).ins) THEN gone \cup {p} ELSE gone)
           /\ news' = news
Ins_(p, w, an, ns) ==
  /\ Try(IF \A i \in 1..Len(ns) : Makeable(ns[i], "BE")
         THEN Insert(ch, p, w, an, [i \in 1..Len(ns) |-> Make(ns[i], "BE")]) ELSE {})
  /\ Log([op |-> "ins", p |-> p, where |-> w, anchor |-> an, ns |-> ns])
  /\ UNCHANGED <<gone, set>>
  /\ news' = news + (IF ok' THEN Len(ns) ELSE 0)
Next == /\ Len(hist) < D
        /\ \/ \E p \in Targets, v \in Vals : Set_(p, v)
           \/ \E p \in Targets : Del_(p)
           \/ \E p \in {<<>>, <<"s">>}, w \in {"before", "after", "end"},
                 an \in {"a", "t", "q", "x"}, ns \in News :
                (w = "end" => an = "a") /\ Ins_(p, w, an, ns)
Spec == Init /\ [][Next]_vars
View == <<ch, ok, Len(hist), gone, set>>
---------------------------------------------------------------------------
RECURSIVE UniqueNames(_)
UniqueNames(c) == /\ Cardinality(Names(c)) = Len(c)
                  /\ \A i \in 1..Len(c) : IsSet(c[i]) => UniqueNames(c[i].ch)
UniqueNames_ == UniqueNames(ch)
\* original leaves: same order, same bits unless assigned, none lost
Orig == Leaves(Ch0)
OrigPath == <<<<"a">>, <<"s", "p">>, <<"s", "q">>, <<"t">>>>
Live(i) == OrigPath[i] \notin gone /\ <<OrigPath[i][1]>> \notin gone
LiveSeq == SelectSeq(<<1, 2, 3, 4>>, Live)
Conserved == LET k == Kept(ch) IN
  /\ [i \in 1..Len(k) |-> k[i].nm] = [i \in 1..Len(LiveSeq) |-> Orig[LiveSeq[i]].nm]
  /\ \A i \in 1..Len(k) : OrigPath[LiveSeq[i]] \notin set => k[i].b = Orig[LiveSeq[i]].b
\* what is written: every bit of the document, once, in order
RECURSIVE AllBits(_)
AllBits(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls).b \o AllBits(Tail(ls))
Output == LET w == Written(ch)
              b == AllBits(Leaves(ch))
              z == [i \in 1..((8 - (Len(b) % 8)) % 8) |-> 0]
          IN /\ w.st # "mix"
             /\ w.st = "ok" => w.d = Split(b \o z, "BE") /\ Len(b) = SizeAll(ch)
             /\ ch = Ch0 => w.d = Src
Refusal == [][~ok' => ch' = ch]_vars
=============================================================================
