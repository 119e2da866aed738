-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tools hachoir-metadata, hachoir-list and               *)
(* hachoir-strip: what is printed for a list of files, the exit status and *)
(* the files made.                                                         *)
(*                                                                         *)
(* A session is [tool, o, files].                                          *)
(* hachoir-metadata: o = [mode "text" "mime" "type", level 1..9, raw];     *)
(* a file is [name, st, mime, desc, secs]: st is "bad" (it can't be        *)
(* opened or parsed), "none" (parsed but nothing can be learned) or "ok";  *)
(* secs the groups of facts <<[title, key, items]>>, the first one common, *)
(* an item [prio, d, k, text, val].                                        *)
(* hachoir-list: o = [desc, size, value, width]; a file is [name, st,      *)
(* nodes]: st "missing" (it can't be opened), "unknown" or "ok"; nodes the *)
(* fields before their children, [d depth, n, c class, z bits, ds, hv, t]. *)
(*                                                                         *)
(* hachoir-strip (quiet): o = [some], FALSE if nothing is to be removed;   *)
(* a file is [name, st, desc, len, left]: st "bad", "other" (no stripper), *)
(* "clean" (nothing to remove) or "saved"; left: size of the new file.     *)
(*                                                                         *)
(* State: [i the file being worked on, n its lines printed so far, ok, end] *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSetsExt, TLC

Spaces(n) == FoldLeft(LAMBDA a, b : a \o b, "", [i \in 1..n |-> " "])

---------------------------------------------------------------------------
(* hachoir-metadata *)
Limit(o) == (o.level * 100) + 99
\* the facts important enough, the most important ones first
Chosen(items, limit) ==
  LET used == {items[j].prio : j \in 1..Len(items)}
      ps == SetToSortSeq({p \in used : p <= limit}, LAMBDA a, b : a < b)
  IN FlattenSeq([i \in 1..Len(ps) |-> SelectSeq(items, LAMBDA it : it.prio = ps[i])])
Section(s, k, o) ==
  LET its == Chosen(s.items, Limit(o))
      head == IF o.raw /\ k > 1 THEN s.key ELSE s.title
      Line(it) == "- " \o (IF o.raw THEN it.k \o ": " \o it.val ELSE it.d \o ": " \o it.text)
  IN IF its = <<>> THEN <<>>
     ELSE <<head \o ":">> \o [j \in 1..Len(its) |-> Line(its[j])]
Facts(f, o) ==
  LET all == FlattenSeq([k \in 1..Len(f.secs) |-> Section(f.secs[k], k, o)])
  IN IF all = <<>> THEN <<"(no metadata, priority may be too small)">> ELSE all
MetaFine(f, o) == f.st = "ok" \/ (f.st = "none" /\ o.mode # "text")
MetaLines(f, o, many) ==
  LET text == IF ~MetaFine(f, o) THEN <<>>
              ELSE CASE o.mode = "mime" -> <<f.mime>>
                     [] o.mode = "type" -> <<f.desc>>
                     [] OTHER -> Facts(f, o)
  IN IF many THEN [j \in 1..Len(text) |-> f.name \o ": " \o text[j]] ELSE text

---------------------------------------------------------------------------
(* hachoir-list *)
SizeText(z) == IF (z % 8) = 0 THEN ToString(z \div 8) \o "B" ELSE ToString(z) \o "b"
NodeLine(x, o) ==
  Spaces(o.width * x.d) \o x.n \o " <" \o x.c
  \o (IF o.size THEN ", " \o SizeText(x.z) ELSE "") \o ">"
  \o (IF o.desc THEN " (" \o x.ds \o ")" ELSE "")
  \o (IF o.value /\ x.hv THEN ": " \o x.t ELSE "")
\* what stands before the fields
ListHead(f, k, many) ==
  (IF k > 1 THEN <<"">> ELSE <<>>)
  \o (IF many THEN <<"File: " \o f.name>> ELSE <<>>)
  \o (CASE f.st = "missing" -> <<"Unable to open file">>
        [] f.st = "unknown" -> <<"Unable to parse file: " \o f.name>>
        [] OTHER -> <<>>)

---------------------------------------------------------------------------
(* hachoir-strip *)
Vals == INSTANCE Values
Binary(n) == [j \in 1..31 |-> (n \div (2 ^ (31 - j))) % 2]
\* tenths of a percent; a tie may be rounded either way
Percents(part, all) ==
  LET q == (1000 * part) \div all
      r == (1000 * part) % all
      Text(t) == ToString(t \div 10) \o "." \o ToString(t % 10) \o "%"
  IN {Text(t) : t \in {x \in {q, q + 1} : IF x = q THEN 2 * r <= all ELSE 2 * r >= all}}
Removed(f) == {"Remove " \o z \o " (" \o p \o ")" :
               z \in Vals!FileSize(Binary(f.len - f.left)), p \in Percents(f.len - f.left, f.len)}
\* the acceptable lines
StripLines(f) ==
  <<{"[+] Process file " \o f.name}>>
  \o (CASE f.st = "bad" -> <<>>
        [] f.st = "other" -> <<{"Don't have stripper for file type: " \o f.desc}>>
        [] f.st = "clean" -> <<{"Stripper doesn't touch the file"}>>
        [] OTHER -> (IF f.left = f.len THEN <<>> ELSE <<Removed(f)>>)
                    \o <<{"Save new file into " \o f.name \o ".new"}>>)

---------------------------------------------------------------------------
\* files made next to the files
Made(ses, k) == ses.tool = "strip" /\ ses.o.some /\ ses.files[k].st = "saved"

Start(ses) == [i |-> 0, n |-> 0, ok |-> TRUE, end |-> FALSE]
Several(ses) == Len(ses.files) > 1
\* number of lines printed for a file, and the n-th one
Count(ses, k) ==
  LET f == ses.files[k]
  IN IF ses.tool = "metadata" THEN Len(MetaLines(f, ses.o, Several(ses)))
     ELSE IF ses.tool = "strip" THEN Len(StripLines(f))
     ELSE Len(ListHead(f, k, Several(ses))) + Len(f.nodes)
LinesAt(ses, k, n) ==
  LET f == ses.files[k]
      head == ListHead(f, k, Several(ses))
  IN IF ses.tool = "metadata" THEN {MetaLines(f, ses.o, Several(ses))[n]}
     ELSE IF ses.tool = "strip" THEN StripLines(f)[n]
     ELSE IF n <= Len(head) THEN {head[n]} ELSE {NodeLine(f.nodes[n - Len(head)], ses.o)}
Good(ses, k) ==
  IF ses.tool = "metadata" THEN MetaFine(ses.files[k], ses.o)
  ELSE IF ses.tool = "strip" THEN ses.files[k].st \in {"clean", "saved"}
  ELSE ses.files[k].st = "ok"

\* (the strip has something to say when nothing is asked)
Idle(ses) == ses.tool = "strip" /\ (IF ses.tool = "strip" THEN ~ses.o.some ELSE FALSE)
CanSay(ses, s) == IF s.i = 0 THEN Idle(ses) /\ s.n = 0 ELSE s.n < Count(ses, s.i)
SaidAt(ses, s) == IF s.i = 0 THEN {"Nothing to do, exit"} ELSE LinesAt(ses, s.i, s.n + 1)
Say(s) == [s EXCEPT !.n = @ + 1]
\* the list stops at the first file which fails, metadata goes on
CanOpen(ses, s) == /\ ~s.end
                   /\ ~CanSay(ses, s)
                   /\ s.i < Len(ses.files)
                   /\ ses.tool # "list" \/ s.ok
                   /\ ses.tool = "strip" => ses.o.some
Open(ses, s) == [s EXCEPT !.i = @ + 1, !.n = 0, !.ok = @ /\ Good(ses, s.i + 1)]
CanQuit(ses, s) == ~s.end /\ ~CanSay(ses, s) /\ ~CanOpen(ses, s)
Quit(s) == [s EXCEPT !.end = TRUE]
Status(s) == IF s.ok THEN 0 ELSE 1

\* without the steps which can't be seen
RECURSIVE Ready(_, _)
Ready(ses, s) == IF CanOpen(ses, s) THEN Ready(ses, Open(ses, s)) ELSE s
============================================================================
