------------------------------- MODULE CliMC -------------------------------
(***************************************************************************)
(* All sessions of up to N small files, step by step.                      *)
(***************************************************************************)
EXTENDS Cli
CONSTANT N
VARIABLES ses, s, out

It(p, k) == [prio |-> p, d |-> "D" \o k, k |-> k, text |-> "t" \o k, val |-> "v" \o k]
Common(items) == [title |-> "Common", key |-> "", items |-> items]
Grp(items) == [title |-> "Group", key |-> "g", items |-> items]
MFile(name, st, secs) == [name |-> name, st |-> st, mime |-> "m/" \o name,
                          desc |-> "about " \o name, secs |-> secs]
MFiles == {MFile("a", "bad", <<>>), MFile("b", "none", <<>>),
           MFile("c", "ok", <<Common(<<It(300, "x"), It(100, "y"), It(300, "z")>>)>>),
           MFile("d", "ok", <<Common(<<>>), Grp(<<It(999, "x")>>), Grp(<<It(150, "z")>>)>>)}
MOpts == [mode : {"text", "mime", "type"}, level : {1, 3, 9}, raw : BOOLEAN]
Nd(d, n, z, hv) == [d |-> d, n |-> n, c |-> "C", z |-> z, ds |-> "ds", hv |-> hv, t |-> "7"]
LFile(name, st, nodes) == [name |-> name, st |-> st, nodes |-> nodes]
LFiles == {LFile("a", "missing", <<>>), LFile("b", "unknown", <<>>),
           LFile("c", "ok", <<Nd(0, "x", 12, TRUE), Nd(0, "y", 16, FALSE), Nd(1, "z", 16, TRUE)>>),
           LFile("d", "ok", <<>>)}
LOpts == [desc : BOOLEAN, size : BOOLEAN, value : BOOLEAN, width : {0, 2}]
SFile(name, st, left) == [name |-> name, st |-> st, desc |-> "about", len |-> 3000, left |-> left]
SFiles == {SFile("a", "bad", 0), SFile("b", "other", 0), SFile("c", "clean", 3000),
           SFile("d", "saved", 3000), SFile("e", "saved", 1499)}

Init == /\ \E n \in 1..N :
             \/ \E o \in MOpts, f \in [1..n -> MFiles] :
                  ses = [tool |-> "metadata", o |-> o, files |-> f]
             \/ \E o \in LOpts, f \in [1..n -> LFiles] :
                  ses = [tool |-> "list", o |-> o, files |-> f]
             \/ \E o \in [some : BOOLEAN], f \in [1..n -> SFiles] :
                  ses = [tool |-> "strip", o |-> o, files |-> f]
        /\ s = Start(ses)
        /\ out = <<>>
Next == /\ UNCHANGED ses
        /\ \/ CanOpen(ses, s) /\ s' = Open(ses, s) /\ UNCHANGED out
           \/ CanSay(ses, s) /\ s' = Say(s) /\ out' = Append(out, CHOOSE x \in SaidAt(ses, s) : TRUE)
           \/ CanQuit(ses, s) /\ s' = Quit(s) /\ UNCHANGED out
Spec == Init /\ [][Next]_<<ses, s, out>> /\ WF_<<ses, s, out>>(Next)

Bad(k) == ~Good(ses, k)
\* success is said iff every file went well
Verdict == s.end /\ ~Idle(ses) => ((Status(s) = 0) <=> \A k \in 1..Len(ses.files) : ~Bad(k))
\* what is printed for a file depends on nothing but the file and the
\* number of files: a metadata session is the sessions of its files
Apart == s.end /\ ses.tool = "metadata" =>
  out = FlattenSeq([k \in 1..Len(ses.files) |-> MetaLines(ses.files[k], ses.o, Len(ses.files) > 1)])
\* a file which fails is silent, any other one says something
Silent == s.end /\ ses.tool = "metadata" /\ Len(ses.files) = 1 => ((out = <<>>) <=> Bad(1))
\* all files are tried; the list ends with the complaint about the first bad one
Stop == s.end /\ ~Idle(ses) => IF ses.tool # "list" THEN s.i = Len(ses.files)
                 ELSE \A k \in 1..Len(ses.files) :
                        Bad(k) /\ (\A j \in 1..(k - 1) : ~Bad(j)) => s.i = k
\* a lower level prints a part of what a higher one prints
Less == \A k \in 1..Len(ses.files) :
  IF ses.tool = "metadata" /\ ses.files[k].st = "ok"
  THEN LET f == ses.files[k]
           At(l) == Range(Facts(f, [ses.o EXCEPT !.level = l]))
                    \ {"(no metadata, priority may be too small)"}
       IN At(1) \subseteq At(3) /\ At(3) \subseteq At(9)
  ELSE TRUE
\* a strip which says it saved something did
Told == s.end /\ ses.tool = "strip" =>
  \A k \in 1..Len(ses.files) :
    Made(ses, k) <=> "Save new file into " \o ses.files[k].name \o ".new" \in Range(out)
Done == <>(s.end)
=============================================================================
