------------------------------ MODULE GuessMC ------------------------------
(* All choices over three parsers, every verdict and up to N tags; streams    *)
(* remember the parser which is open on them.                                *)
EXTENDS Guess, TLC
CONSTANTS N
VARIABLES view, open, last

a_ == <<97>>
Reg == <<[id |-> "p1", cat |-> "misc", exts |-> <<a_>>, mimes |-> <<"m">>],
         [id |-> "p2", cat |-> "misc", exts |-> <<a_, <<98>>>>, mimes |-> <<>>],
         [id |-> "p3", cat |-> "game", exts |-> <<>>, mimes |-> <<"m">>]>>
T(k, v, any, set) == [k |-> k, v |-> v, any |-> any, set |-> set]
Tags == {T("none", "", FALSE, <<>>), T("args", "", FALSE, <<>>), T("class", "", FALSE, <<2>>),
         T("id", "p3", FALSE, <<>>), T("id", "p9", FALSE, <<>>), T("id", "", TRUE, <<>>),
         T("category", "misc", FALSE, <<>>), T("mime", "m", FALSE, <<>>),
         T("filename", <<47, 46, 97, 47, 120, 46, 65>>, FALSE, <<>>),
         T("call", "", FALSE, <<1, 3>>)}
Queries == UNION {[1..k -> Tags] : k \in 0..N}
None_ == [res |-> -2, tags |-> <<>>, use |-> FALSE, again |-> FALSE]

Init == /\ view \in [valid : [1..3 -> {"a", "r", "x"}], built : [1..3 -> BOOLEAN]]
        /\ \A p \in 1..3 : view.valid[p] = "a" => view.built[p]
        /\ open = 0 /\ last = None_
Ask == \E q \in Queries : \E use \in BOOLEAN :
         LET r == Rank(Reg, q) again == open # 0 /\ open \in Candidates(r)
         IN \E c \in IF again THEN {open} ELSE Choice(Reg, q, view, use) :
              /\ last' = [res |-> c, tags |-> q, use |-> use, again |-> again]
              /\ open' = IF c > 0 THEN c ELSE open
              /\ UNCHANGED view
Close == open # 0 /\ open' = 0 /\ last' = None_ /\ UNCHANGED view
Next == (last = None_ /\ Ask) \/ (last # None_ /\ last' = None_ /\ UNCHANGED <<view, open>>) \/ Close
Spec == Init /\ [][Next]_<<view, open, last>>
---------------------------------------------------------------------------
R == Rank(Reg, last.tags)
\* nothing refused is ever chosen, unless it was asked for
Sound == last.res > 0 /\ ~last.again =>
           \/ view.valid[last.res] = "a"
           \/ last.res \in R.forced /\ view.built[last.res]
           \/ last.use /\ R.single = 1 /\ \A p \in Candidates(R) : ~Works(view, R, p)
\* an accepted candidate is never passed over
Full_ == last.res \in {0, -1} => \A p \in Candidates(R) : ~Works(view, R, p)
\* what ranks before it was refused
Best == last.res > 0 /\ ~last.again /\ Works(view, R, last.res) =>
          \A i \in 1..Len(R.groups) :
             (\A j \in 1..i : last.res \notin R.groups[j]) => \A p \in R.groups[i] : ~Works(view, R, p)
\* every parser is a candidate unless the tags say that no other is wanted
Open_ == (last # None_ /\ \A i \in 1..Len(last.tags) : last.tags[i].k # "none") => Candidates(R) = 1..3
Inv == Sound /\ Full_ /\ Best /\ Open_
=============================================================================
