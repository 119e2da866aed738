------------------------------ MODULE FieldPaths ------------------------------
(***************************************************************************)
(* Path lookup and arrays over a finished tree: s.T is the table of nodes, *)
(* s.fed how many fields of each set have been parsed so far.  Lookups     *)
(* also tell how far each set has to be parsed for the answer.             *)
(* A path component is [nm, up]: up = -1 a name, otherwise that many       *)
(* levels up (".." = 1, "..." = 2, "." and "" = 0).                        *)
(***************************************************************************)
EXTENDS FieldTree

None == <<>>
\* index of the child named nm, 0 when there is none
Child(s, p, nm) ==
  LET C == {i \in 1..Len(s.T[p].ch) : s.T[s.T[p].ch[i]].name = nm}
  IN IF C = {} THEN 0 ELSE CHOOSE i \in C : TRUE

\* Resolving a sequence of path components from node p.  Returns the node
\* reached ("" = missing) and how far each set had to be parsed.
Need(n, p, k) == (p :> (IF p \in DOMAIN n THEN Max2(n[p], k) ELSE k)) @@ n
RECURSIVE Up(_, _, _), Resolve(_, _, _, _, _)
Up(s, p, k) == IF k = 0 \/ p = "" THEN p ELSE Up(s, s.T[p].up, k - 1)
Resolve(s, p, parts, const, n) ==
  IF parts = <<>> THEN [p |-> p, n |-> n]
  ELSE LET c == Head(parts) IN
  IF c.up >= 0
  THEN LET q == Up(s, p, c.up)
       IN IF q = "" THEN [p |-> "", n |-> IF const \/ ~s.T[p].set THEN n
                                                    ELSE Need(n, p, Len(s.T[p].ch))]
          ELSE Resolve(s, q, Tail(parts), const, n)
  ELSE IF ~s.T[p].set THEN [p |-> "", n |-> n]
  ELSE LET i == Child(s, p, c.nm)
           known == IF p \in DOMAIN n THEN Max2(n[p], s.fed[p]) ELSE s.fed[p]
       IN IF i = 0 \/ (const /\ i > known)
          THEN [p |-> "", n |-> IF const THEN n ELSE Need(n, p, Len(s.T[p].ch))]
          ELSE Resolve(s, s.T[p].ch[i], Tail(parts), const, IF const THEN n ELSE Need(n, p, i))

\* members nm[0], nm[1], ... of a set
MemberPath(s, p, nm, i) ==
  LET c == Child(s, p, nm \o "[" \o ToString(i) \o "]")
  IN IF c = 0 THEN "" ELSE s.T[p].ch[c]
RECURSIVE Members(_, _, _, _)
Members(s, p, nm, i) == LET q == MemberPath(s, p, nm, i)
                        IN IF q = "" THEN <<>> ELSE <<q>> \o Members(s, p, nm, i + 1)
ArrNeed(s, p, nm, i) == \* to know whether member i exists
  LET c == Child(s, p, nm \o "[" \o ToString(i) \o "]")
  IN IF c = 0 THEN Len(s.T[p].ch) ELSE c

=============================================================================
