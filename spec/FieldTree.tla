------------------------------ MODULE FieldTree ------------------------------
(***************************************************************************)
(* Field sets of hachoir (hachoir/field/generic_field_set.py): the tree a  *)
(* parser program yields on a source of known size, errors and repair      *)
(* included.                                                               *)
(*                                                                         *)
(* A parser program is a sequence of items; each is a record               *)
(*   k  = "leaf" : a field of w bits; with ref # "" the width is           *)
(*                 w + mul * (value of the earlier field named ref), taken *)
(*                 from the set itself (up = 0) or an enclosing one        *)
(*        "set"  : a field set running `prog'; w = declared size in bits,  *)
(*                 0 = undetermined (found by parsing); ref as for leaves; *)
(*                 with own # "" its size is w + mul * (value of its own   *)
(*                 field named own), read when the set is created          *)
(*        "err"  : the program raises a parser error                       *)
(*        "pad"  : seek to bit w of the set (padding, nothing when there)  *)
(*        "seek" : in a seekable set, go to bit w of the set (mul = 0) or  *)
(*                 of the source (mul = 1), forwards or backwards          *)
(*   skb = the set is seekable: its fields may leave gaps and overlap; what *)
(*         they do not cover is shown as raw fields added at the end       *)
(*   peek = k > 0: the program reads the first k fields of a set of declared*)
(*         size before it adds the set to its parent; only then is the set  *)
(*         shortened to the space which is left                             *)
(*   nm = name, ix = the name is indexed (nm[0], nm[1], ...)               *)
(*   loop = repeat the item until the end of the available space           *)
(*   rep  = repeat the item as often as the value of the field named rep   *)
(*                                                                         *)
(* Parse gives what the set finally contains.  It is a function of program *)
(* and source alone: the order of accesses does not enter.                 *)
(***************************************************************************)
EXTENDS Streams

\* value of bits [a, a+n) of the source, big endian
RECURSIVE ValueBE(_, _, _)
ValueBE(F, a, n) == IF n = 0 THEN 0 ELSE 2 * ValueBE(F, a, n - 1) + BitBE(F, a + n - 1)

NoNode == [name |-> "", a |-> 0, sz |-> 0, k |-> "none", ch |-> <<>>,
           pre |-> 0, und |-> FALSE, skb |-> FALSE,
           bad |-> FALSE, ext |-> 0]

NoItem == [k |-> "none"]

\* parser state inside one set:
\*   f    fields so far   cur  their total size   size  0 = undetermined
\*   cnt  how many fields were named nm[...]   st "run" | "stop" | "err"
\*   its  the item each field came from
\*   peek fields which are read before the set is shortened to cut
\*   own  the field which tells the size, ow + om * value; until it has been
\*        parsed the set is confined to room; cap is the size it gets when it
\*        claims more.  pre = fields parsed when the size got
\*        known, ext their total size
Count(cnt, nm) == IF nm \in DOMAIN cnt THEN cnt[nm] ELSE 0
Bump(cnt, nm) == (nm :> (Count(cnt, nm) + 1)) @@ cnt
Names(s) == {s.f[i].name : i \in 1..Len(s.f)}
FieldNamed(s, nm) == s.f[CHOOSE i \in 1..Len(s.f) : s.f[i].name = nm]

Limit(s) == IF s.size # 0 THEN s.size ELSE s.room
Left(s) == Limit(s) - s.cur

\* name a field gets: indexed names are numbered, a name which is taken gets
\* the first index which makes it free
RECURSIVE Numbered(_, _, _)
Numbered(taken, cnt, nm) ==
  LET n == nm \o "[" \o ToString(Count(cnt, nm)) \o "]"
  IN IF n \in taken THEN Numbered(taken, Bump(cnt, nm), nm)
     ELSE [nm |-> n, cnt |-> Bump(cnt, nm)]
FreeName(taken, cnt, nm, ix) ==
  LET n1 == IF ix THEN nm \o "[" \o ToString(Count(cnt, nm)) \o "]" ELSE nm
      c1 == IF ix THEN Bump(cnt, nm) ELSE cnt
  IN IF n1 \in taken THEN Numbered(taken, c1, n1) ELSE [nm |-> n1, cnt |-> c1]
Named(s, nm, ix) == FreeName(Names(s), s.cnt, nm, ix)

Add(s, node, nm, ix) ==
  LET n == Named(s, nm, ix)
  IN [s EXCEPT !.f = Append(@, [node EXCEPT !.name = n.nm, !.a = s.cur]),
               !.cnt = n.cnt, !.cur = @ + node.sz]

\* fields beyond the size are dropped (a set may turn out to be smaller than
\* what has been read to learn its size), the rest is covered
RECURSIVE Trim(_)
Trim(s) == IF s.size >= s.cur THEN s
           ELSE Trim([s EXCEPT !.cur = @ - s.f[Len(s.f)].sz, !.f = SubSeq(@, 1, Len(@) - 1)])
Cover1(s) == IF s.size > s.cur
             THEN [s EXCEPT !.f = Append(@, [NoNode EXCEPT !.name = "raw[]", !.a = s.cur,
                                                 !.sz = s.size - s.cur, !.k = "raw"]),
                            !.cur = s.size]
             ELSE s
Filler(s) == Cover1(Trim(s))
\* a seekable set: what no field covers
Sorted(C) == SortSeq(SetToSeq(C), LAMBDA x, y : x.a < y.a \/ (x.a = y.a /\ x.b < y.b))
Spans(f) == {[a |-> f[i].a, b |-> f[i].a + f[i].sz] : i \in 1..Len(f)}
GapsOf(spans, size) ==
  LET r == FoldSeq(LAMBDA x, acc :
                     [end |-> Max2(acc.end, x.b),
                      g |-> IF x.a > acc.end THEN Append(acc.g, [a |-> acc.end, b |-> x.a]) ELSE acc.g],
                   [end |-> 0, g |-> <<>>], Sorted(spans))
  IN IF r.end < size THEN Append(r.g, [a |-> r.end, b |-> size]) ELSE r.g
EndOf(f) == FoldSeq(LAMBDA x, acc : Max2(acc, x.a + x.sz), 0, f)
Uncovered(s) ==
  LET z == Max2(IF s.size = 0 THEN s.cur ELSE s.size, EndOf(s.f))
      g == GapsOf(Spans(s.f), z)
      n == Count(s.cnt, "unparsed")
  IN [s EXCEPT !.size = z, !.cur = z,
        !.f = @ \o [i \in 1..Len(g) |->
               [NoNode EXCEPT !.name = "unparsed[" \o ToString(n + i - 1) \o "]", !.a = g[i].a,
                              !.sz = g[i].b - g[i].a, !.k = "raw"]]]
\* an undetermined seekable set which ended beyond the space it has
RECURSIVE CutTo(_, _)
CutTo(f, z) ==
  LET x == f[Len(f)] IN
  IF x.a >= z THEN CutTo(SubSeq(f, 1, Len(f) - 1), z)
  ELSE IF x.a + x.sz > z
       THEN Append(SubSeq(f, 1, Len(f) - 1), [x EXCEPT !.name = "raw[]", !.k = "raw", !.sz = z - x.a])
       ELSE f
\* an error inside the set: repaired when the size is determined and repair
\* (fix) is on
Fail(s) == IF s.size # 0 /\ s.fix THEN [(IF s.skb THEN Uncovered(s) ELSE Filler(s)) EXCEPT !.st = "stop"]
           ELSE [s EXCEPT !.st = "err"]
\* the program ended (or was cut): an undetermined size is what was parsed,
\* what is left of a determined one is covered by a raw field
Finish(s) == IF s.skb THEN [Uncovered(s) EXCEPT !.st = "stop"]
             ELSE IF s.size = 0 THEN [s EXCEPT !.st = "stop", !.size = s.cur]
             ELSE IF s.size # s.cur /\ ~s.fix THEN [s EXCEPT !.st = "err"]
             ELSE [Filler(s) EXCEPT !.st = "stop"]
\* a field too large for the space left
TooLarge(s) == IF s.cur = 0 \/ ~s.fix THEN Fail(s)
               ELSE Finish(IF s.size = 0 /\ Left(s) > 0 THEN [s EXCEPT !.size = s.cur + Left(s)] ELSE s)

RECURSIVE Run(_, _, _, _, _), Parse(_, _, _, _, _, _, _, _, _, _), Times(_, _, _, _, _), NodeFor(_, _, _, _, _, _)
\* the field a reference designates: [ok, value]
Refer(s, nm, up, F, org) ==
  LET env == <<[f |-> s.f, org |-> org]>> \o s.env
  IN IF up + 1 > Len(env) THEN [ok |-> FALSE, v |-> 0]
     ELSE LET e == env[up + 1]
              C == {i \in 1..Len(e.f) : e.f[i].name = nm}
          IN IF C = {} THEN [ok |-> FALSE, v |-> 0]
             ELSE LET r == e.f[CHOOSE i \in C : TRUE]
                  IN IF e.org + r.a + r.sz > 8 * Len(F) THEN [ok |-> FALSE, v |-> 0]
                     ELSE [ok |-> TRUE, v |-> ValueBE(F, e.org + r.a, r.sz)]

Leaf(s, it, w) ==
  IF w <= Left(s) THEN Add(s, [NoNode EXCEPT !.k = it.k, !.sz = w], it.nm, it.ix)
  ELSE TooLarge(s)

NoOwn == [nm |-> "", w |-> 0, mul |-> 0, cap |-> 0]
NoPeek == [k |-> 0, cut |-> 0]

\* Shortening a set which is (partly) parsed: fields beyond the cut are
\* dropped; of the one it falls into, a set is shortened in turn, a leaf
\* becomes raw data.  Where the fields end before the cut, parsing goes on.
Shrink(s, F, org) ==
  LET z == s.peek.cut
      t == [s EXCEPT !.peek = NoPeek, !.size = z, !.ext = 0]
  IN IF z >= s.cur THEN [t EXCEPT !.st = IF z = s.cur THEN "stop" ELSE @]
     ELSE LET C == {i \in 1..Len(s.f) : s.f[i].a < z}
              n == CHOOSE i \in C : \A j \in C : j <= i
              x == s.f[n]
              head == SubSeq(s.f, 1, n - 1)
              \* parse the inner set again the way it was, then cut it
              back == [s EXCEPT !.f = head, !.cur = x.a, !.peek = NoPeek]
              it == s.its[n]
              w == IF it.ref = "" THEN it.w ELSE it.w + it.mul * Refer(back, it.ref, it.up, F, org).v
              y == IF x.a + x.sz = z THEN x
                   ELSE IF x.k = "set" THEN [NodeFor(back, it, w, F, org, z - x.a).node EXCEPT !.name = x.name, !.a = x.a]
                   ELSE [x EXCEPT !.name = "raw[]", !.k = "raw", !.sz = z - x.a]
          IN [t EXCEPT !.f = Append(head, y), !.cur = z, !.st = "stop"]
\* after each item: remember which item each field came from, cut when due
After(s, it, F, org) ==
  LET t == [s EXCEPT !.its = @ \o [i \in 1..Max2(0, Len(s.f) - Len(@)) |-> it]]
  IN IF t.peek.k > 0 /\ (Len(t.f) >= t.peek.k \/ t.st # "run") THEN Shrink(t, F, org) ELSE t

\* the node for a set item: [t, node] with t = "ok", "fail" (the error goes to
\* the parent), "large" (too large), "last" (added, then the parent ends).
\* cut > 0: the set was added and is shortened to cut afterwards.
NodeFor(s, it, w, F, org, cut) ==
  LET env == <<[f |-> s.f, org |-> org]>> \o s.env
      Node(r, z) == [NoNode EXCEPT !.k = "set", !.sz = z, !.ch = r.f, !.bad = r.st = "err",
                                   !.pre = r.pre, !.ext = r.ext, !.skb = it.skb]
      Ok(x) == [t |-> "ok", node |-> x]
      No(why) == [t |-> why, node |-> NoNode]
  IN
  IF it.own # ""
  THEN LET cap == IF s.cur > 0 /\ s.fix THEN Left(s) ELSE 0
           r == Parse(it.prog, F, org + s.cur, 0, Left(s), s.fix, it.skb, env,
                      [nm |-> it.own, w |-> w, mul |-> it.mul, cap |-> cap], [k |-> 0, cut |-> cut])
       IN IF r.own.nm # "" THEN No("fail")          \* its size cannot be read
          ELSE IF r.st = "void" THEN No("large")
          ELSE Ok(Node(r, r.size))
  ELSE IF w # 0
  THEN LET z == IF cut > 0 THEN cut ELSE IF w <= Left(s) THEN w ELSE IF s.cur > 0 /\ s.fix THEN Left(s) ELSE 0
           short == it.peek > 0 /\ 0 < z /\ z < w
           r == IF short
                THEN Parse(it.prog, F, org + s.cur, w, w, s.fix, it.skb, env, NoOwn, [k |-> it.peek, cut |-> z])
                ELSE Parse(it.prog, F, org + s.cur, z, z, s.fix, it.skb, env, NoOwn, NoPeek)
       IN IF z <= 0 THEN No(IF it.peek = 0 THEN "large" ELSE "any")
          ELSE IF it.peek > 0 /\ r.st = "err" /\ Len(r.f) < it.peek THEN No("fail")
          ELSE Ok([Node(r, z) EXCEPT !.pre = it.peek])
  ELSE LET r == Parse(it.prog, F, org + s.cur, 0, Left(s), s.fix, it.skb, env, NoOwn, NoPeek)
           NodeOf(q) == [Node(q, q.cur) EXCEPT !.bad = FALSE, !.pre = Len(q.f), !.und = TRUE]
           \* seekable sets may end beyond the space
           Short(q) == [q EXCEPT !.f = CutTo(@, Left(s)), !.size = Left(s), !.cur = Left(s)]
           Put(q, t) == IF q.cur <= Left(s) THEN t
                        ELSE IF s.cur > 0 /\ s.fix /\ Left(s) > 0 THEN t ELSE No("large")
           Fit(q) == LET p == IF q.cur <= Left(s) THEN q ELSE Short(q)
                     IN IF cut > 0 THEN Shrink([p EXCEPT !.peek = [k |-> 0, cut |-> cut]], F, org + s.cur) ELSE p
       IN IF r.st = "err"
          THEN IF r.f # <<>> /\ r.cur >= Left(s)
               THEN LET q == Finish(r)
                    IN Put(q, [t |-> "last", node |-> NodeOf(Fit(q))])
               ELSE No("fail")
          ELSE IF r.cur = 0 THEN No("large")
          ELSE Put(r, Ok(NodeOf(Fit(r))))

SetItem(s, it, w, F, org) ==
  LET r == NodeFor(s, it, w, F, org, 0)
  IN CASE r.t = "ok"    -> Add(s, r.node, it.nm, it.ix)
       [] r.t = "last"  -> Finish(Add(s, r.node, it.nm, it.ix))
       [] r.t = "fail"  -> Fail(s)
       [] r.t \in {"large", "any"} -> TooLarge(s)

Sized(s, it, w, F, org) == CASE it.k = "leaf" -> Leaf(s, it, w)
                             [] it.k = "set"  -> SetItem(s, it, w, F, org)
One0(s, it, F, org) ==
  CASE it.k = "err"  -> Fail(s)
    [] it.k = "seek" -> LET p == IF it.mul = 1 THEN it.w - org ELSE it.w
                        IN IF p < 0 THEN Fail(s) ELSE [s EXCEPT !.cur = p]
    [] it.k = "pad"  -> IF it.w < s.cur THEN Fail(s)
                        ELSE IF it.w = s.cur THEN s
                        ELSE Leaf(s, [it EXCEPT !.nm = "padding", !.ix = TRUE], it.w - s.cur)
    [] OTHER -> IF it.ref = "" THEN Sized(s, it, it.w, F, org)
                ELSE LET r == Refer(s, it.ref, it.up, F, org)
                     IN IF r.ok THEN Sized(s, it, it.w + it.mul * r.v, F, org) ELSE Fail(s)

One(s, it, F, org) == After(One0(s, it, F, org), it, F, org)

Times(s, it, k, F, org) == IF k = 0 \/ s.st # "run" THEN s
                           ELSE Times(One(s, it, F, org), it, k - 1, F, org)

Run(s, prog, i, F, org) ==
  IF s.st # "run" THEN s
  ELSE IF s.own.nm # "" /\ s.own.nm \in Names(s)
  THEN LET v == Refer(s, s.own.nm, 0, F, org)
           z == s.own.w + s.own.mul * v.v
           y == IF z <= s.room THEN z ELSE s.own.cap
           t == [s EXCEPT !.size = y, !.own = NoOwn, !.pre = Len(s.f), !.ext = s.cur]
       IN IF ~v.ok THEN [s EXCEPT !.st = "err"]
          ELSE IF y <= 0 THEN [s EXCEPT !.st = "void", !.own = NoOwn]
          ELSE Run(IF s.peek.cut > 0 THEN Shrink(t, F, org) ELSE t, prog, i, F, org)
  ELSE IF i > Len(prog) THEN After(Finish(s), NoItem, F, org)
  ELSE IF prog[i].loop
       THEN IF Left(s) <= 0 THEN Run(s, prog, i + 1, F, org)
            ELSE Run(One(s, prog[i], F, org), prog, i, F, org)
  ELSE IF prog[i].rep # ""
       THEN LET r == Refer(s, prog[i].rep, 0, F, org)
            IN Run(IF r.ok THEN Times(s, prog[i], r.v, F, org)
                   ELSE After(Fail(s), prog[i], F, org), prog, i + 1, F, org)
  ELSE Run(One(s, prog[i], F, org), prog, i + 1, F, org)

\* size: determined size (0 = not), room: space up to the end of the nearest
\* enclosing set of determined size
Parse(prog, F, org, size, room, fix, skb, env, own, peek) ==
  Run([f |-> <<>>, cur |-> 0, size |-> size, room |-> room, cnt |-> <<>>, st |-> "run", its |-> <<>>,
       fix |-> fix, skb |-> skb, env |-> env, own |-> own, peek |-> peek, pre |-> 0, ext |-> 0], prog, 1, F, org)

TreeOf(prog, F, fix, skb) ==
  LET z == 8 * Len(F)
      r == Parse(prog, F, 0, z, z, fix, skb, <<>>, NoOwn, NoPeek)
  IN [NoNode EXCEPT !.k = "set", !.sz = z, !.ch = r.f, !.bad = r.st = "err", !.skb = skb]
TreeFix(prog, F, fix) == TreeOf(prog, F, fix, FALSE)
Tree(prog, F) == TreeFix(prog, F, TRUE)

---------------------------------------------------------------------------
(* The finished tree as a table: path -> node                              *)
JoinPath(p, nm) == IF p = "/" THEN "/" \o nm ELSE p \o "/" \o nm
RECURSIVE Table(_, _, _, _, _)
Table(node, path, abs, up, idx) ==
  LET me == path :> [path |-> path, name |-> node.name, a |-> node.a, abs |-> abs,
                     sz |-> node.sz, set |-> node.k = "set", up |-> up, idx |-> idx,
                     k |-> node.k, pre |-> Min2(node.pre, Len(node.ch)), und |-> node.und, trim |-> node.ext > node.sz, val |-> "", bad |-> node.bad, skb |-> node.skb,
                     ch |-> [i \in 1..Len(node.ch) |-> JoinPath(path, node.ch[i].name)]]
  IN FoldSeq(LAMBDA i, acc : acc @@ Table(node.ch[i], JoinPath(path, node.ch[i].name),
                                          abs + node.ch[i].a, path, i - 1),
             me, [i \in 1..Len(node.ch) |-> i])

---------------------------------------------------------------------------
(* What every finished set satisfies (F01).                                *)
Tiles(ch, size) ==
  /\ ch # <<>> => ch[1].a = 0
  /\ \A i \in 1..(Len(ch) - 1) : ch[i + 1].a = ch[i].a + ch[i].sz
  /\ \A i \in 1..Len(ch) : ch[i].sz > 0
  /\ (IF ch = <<>> THEN 0 ELSE ch[Len(ch)].a + ch[Len(ch)].sz) = size
  /\ \A i, j \in 1..Len(ch) : ch[i].name = ch[j].name => i = j
\* ... and a seekable set (F06): fields inside, fillers exactly the gaps
Fills(ch) == SelectSeq(ch, LAMBDA x : x.k = "raw")
Covers(ch, size) ==
  LET own == SelectSeq(ch, LAMBDA x : x.k # "raw") IN
  /\ \A i \in 1..Len(ch) : ch[i].a >= 0 /\ ch[i].sz > 0 /\ ch[i].a + ch[i].sz <= size
  /\ \A b \in 0..(size - 1) :
       LET Over(f) == {i \in 1..Len(f) : f[i].a <= b /\ b < f[i].a + f[i].sz}
       IN IF Over(own) = {} THEN Cardinality(Over(Fills(ch))) = 1 ELSE Over(Fills(ch)) = {}
  /\ \A i, j \in 1..Len(ch) : ch[i].name = ch[j].name => i = j
RECURSIVE AllTile(_)
AllTile(node) == node.k = "set" => /\ IF node.skb THEN Covers(node.ch, node.sz) ELSE Tiles(node.ch, node.sz)
                                   /\ \A i \in 1..Len(node.ch) : AllTile(node.ch[i])
=============================================================================
