---------------------------- MODULE SubfileTrace ----------------------------
(* Recorded searches.  Header: D (data) and kinds, or occ (the occurrences of  *)
(* the signatures in real data, found one by one); names (what is printed for  *)
(* each kind: id, desc, cls, ext); planted (places of real files).             *)
(* Events: start {lo, hi, dir, odd}: the range, if files are saved, and if     *)
(* only those with an odd number of bytes are; found {...}: a reported file;   *)
(* end {...}.                                                                  *)
EXTENDS Subfile, TraceKit

SbInit(t) == {[c |-> {}, st |-> Nothing, lo |-> 0, hi |-> 0, dir |-> FALSE, odd |-> FALSE, n |-> 0, files |-> {}]}
T == Traces[tid]
Real == T.kinds = <<>>
Occurrences(lo, hi) ==
  IF Real THEN {c \in {T.occ[i] : i \in 1..Len(T.occ)} : lo <= c.s /\ c.e <= hi}
  ELSE Occ(T.D, T.kinds, lo, hi)
Num(k) == LET x == ToString(k) IN SubSeq("0000", 1, MaxOf(0, 4 - Len(x))) \o x
Name(id, f) == LET i == CHOOSE i \in 1..Len(T.names) : T.names[i].id = id IN T.names[i][f]
\* what is said of the copy: "" nothing, "whole", "big", or the file name
Copies(s, c) ==
  IF ~s.dir \/ c.size <= 0 THEN {""}
  ELSE LET rest == IF c.size >= TooBig THEN "big"
                   ELSE IF s.odd /\ c.size % 2 = 0 THEN ""
                   ELSE "file-" \o Num(s.n + 1) \o (IF Real THEN c.ext ELSE Name(c.id, "ext"))
       IN \* the file which is the searched data itself
          IF c.at = 0 /\ c.size = T.D.len /\ s.hi = T.D.len THEN {"whole"}
          ELSE IF c.at = 0 /\ c.size \in {T.D.len, s.hi} THEN {"whole", rest} ELSE {rest}
\* the saved bytes: those of the file, or what there is of a truncated one
Slice(a, n, w) == \* w: len and non filler bytes [i, v] of what was written
  /\ \A k \in 1..Len(w.runs) : \A j \in 1..Len(w.runs[k].b) :
        At(T.D, a + w.runs[k].at + j - 1) = w.runs[k].b[j]
  /\ FoldSeq(LAMBDA x, acc : acc + Len(x.b), 0, w.runs)
       = Cardinality({i \in UNION {{T.D.frags[f].at + j - 1 : j \in {j \in 1..Len(T.D.frags[f].b) : T.D.frags[f].b[j] # T.D.z}} :
                                   f \in 1..Len(T.D.frags)} : a <= i /\ i < a + w.len})
  /\ IF a + n <= T.D.len THEN w.len = n ELSE w.len <= T.D.len - a
Saved(c, e) == IF e.copy \in {"", "whole", "big"} THEN e.len = -1
               ELSE IF Real THEN e.same /\ (IF c.at + c.size <= T.D.len THEN e.len = c.size ELSE e.len <= T.D.len - c.at)
               ELSE Slice(c.at, c.size, [len |-> e.len, runs |-> e.runs])
IsFile(x) == x \notin {"", "whole", "big"}
SbStep(s, e) ==
  CASE e.op = "start" ->
         LET hi == IF e.size < 0 THEN T.D.len ELSE IF e.lo + e.size < T.D.len THEN e.lo + e.size ELSE T.D.len
         IN {[c |-> Occurrences(e.lo, hi), st |-> Nothing, lo |-> e.lo, hi |-> hi,
              dir |-> e.dir, odd |-> e.odd, n |-> 0, files |-> {}]}
    [] e.op = "found" ->
         {[s EXCEPT !.st = Take(@, c), !.n = IF IsFile(e.copy) THEN @ + 1 ELSE @,
                    !.files = IF IsFile(e.copy) THEN @ \cup {e.copy} ELSE @] :
            c \in {c \in Nexts(s.c, s.st, s.lo) :
                     /\ c.at = e.at /\ c.size = e.size
                     /\ e.what = (IF c.size >= TooBig THEN Name(c.id, "cls")
                                  ELSE IF Real THEN c.desc ELSE Name(c.id, "desc"))
                     /\ e.copy \in Copies(s, c) /\ Saved(c, e)}}
    [] e.op = "end" ->
         IF /\ Finished(s.c, s.st, s.lo) /\ e.res = "ok"
            /\ {e.files[i] : i \in 1..Len(e.files)} = s.files
            /\ e.bytes = s.hi - s.lo
            \* hits: kinds which were looked at, with the number of valid files
            /\ e.stats => /\ \A i \in 1..Len(e.valid) :
                               /\ e.valid[i].n = Cardinality({c \in s.st.done : c.id = e.valid[i].id})
                               /\ e.valid[i].hit >= e.valid[i].n
                               /\ e.valid[i].hit <= Cardinality({c \in s.c : c.id = e.valid[i].id})
                          /\ \A c \in s.st.done : \E i \in 1..Len(e.valid) : e.valid[i].id = c.id
            \* a real file put in the data is there
            /\ \A i \in 1..Len(T.planted) : \E c \in s.c : c.at = T.planted[i].at /\ c.id = T.planted[i].id /\ c.ok
         THEN {s} ELSE {}
SbAllow(s, e) == [next |-> Nexts(s.c, s.st, s.lo), wanted |-> {d \in s.c \ s.st.done : Wanted(d, s.c, s.st, s.lo)}, n |-> s.n]
=============================================================================
