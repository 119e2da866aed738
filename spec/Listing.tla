------------------------------- MODULE Listing -------------------------------
(***************************************************************************)
(* The strings of a parsed file (hachoir/grep.py).                          *)
(* node [k |-> "set", "str" or "other", n |-> name, a |-> address in its    *)
(*       set (bits), v |-> codes of the value, no |-> it has no value,      *)
(*       ch |-> nodes]                                                      *)
(* match [p |-> path, a |-> absolute address, v |-> codes]                  *)
(* options [file, addr, path, value: shown or not, case |-> sensitive]      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Text == INSTANCE Metadata

Low(c) == IF c \in 65..90 \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> Low(s[i])]
Within(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
Passes(n, pat, case) ==
  /\ n.k = "str" /\ ~n.no /\ n.v # <<>>
  /\ IF pat = <<>> THEN TRUE
     ELSE IF case THEN Within(pat, n.v) ELSE Within(Lower(pat), Lower(n.v))

\* the matches inside a set, in the order of the tree
RECURSIVE Found(_, _, _, _, _)
Found(n, path, addr, pat, case) ==
  FlattenSeq([i \in 1..Len(n.ch) |->
    LET c == n.ch[i]
        p == path \o <<47>> \o c.n
        a == addr + c.a
    IN IF c.k = "set" THEN Found(c, p, a, pat, case)
       ELSE IF Passes(c, pat, case) THEN <<[p |-> p, a |-> a, v |-> c.v]>> ELSE <<>>])

\* text on a terminal: what its charset has not is escaped
HexN(c) == IF c < 256 THEN <<92, 120, Text!Hex[c \div 16], Text!Hex[c % 16]>>
           ELSE IF c < 65536 THEN <<92, 117, Text!Hex[c \div 4096], Text!Hex[(c \div 256) % 16], Text!Hex[(c \div 16) % 16], Text!Hex[c % 16]>>
           ELSE <<92, 85, 48, 48>> \o [i \in 1..6 |-> Text!Hex[(c \div (16 ^ (6 - i))) % 16]]
Fits(c, charset) == CASE charset = "ASCII" -> c < 128 [] charset = "ISO-8859-1" -> c < 256
                      [] OTHER -> c \notin 55296..57343
Term(s, charset) == Text!Short(FlattenSeq([i \in 1..Len(s) |->
                      IF Fits(s[i], charset) THEN Text!Esc(s[i]) ELSE HexN(s[i])]))
Place(a) == Text!Dec(a \div 8) \o (IF a % 8 = 0 THEN <<>> ELSE <<46>> \o Text!Dec(a % 8))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN <<>>
           ELSE IF Len(q) = 1 THEN Head(q) ELSE Head(q) \o <<58>> \o Join(Tail(q))
Parts(m, o, name) ==
  (IF o.file THEN <<Term(name, o.charset)>> ELSE <<>>)
  \o (IF o.addr THEN <<Place(m.a)>> ELSE <<>>)
  \o (IF o.path THEN <<m.p>> ELSE <<>>)
  \o (IF o.value THEN <<Term(m.v, o.charset)>> ELSE <<>>)
\* the lines for one file; nothing is shown if nothing was asked for
Shown_(q, o, name) == IF ~(o.file \/ o.addr \/ o.path \/ o.value) THEN <<>>
                      ELSE [i \in 1..Len(q) |-> Join(Parts(q[i], o, name))]
=============================================================================
