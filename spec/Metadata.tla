------------------------------ MODULE Metadata ------------------------------
(***************************************************************************)
(* Metadata registers (hachoir/metadata): what adding a value does, what    *)
(* lookups answer, what the exports list.                                   *)
(*                                                                         *)
(* value  [k |-> kind, s |-> sequence, n |-> integer, f |-> fraction,       *)
(*         u |-> its text in Python (codes)]                                *)
(*   kinds: none; str, bytes, lang, other (s: codes); int, num (n + f/8);   *)
(*   delta (n seconds, f microseconds); date (s: y, m, d);                  *)
(*   dt (s: y, m, d, h, mi, s; n: hours of the time zone, 99 without)       *)
(* item   [v |-> value, t |-> <<text>>, or <<>> when not given]             *)
(* register [hdr |-> codes, data |-> keys present -> sequence of items]     *)
(***************************************************************************)
EXTENDS MetaTable, Integers, Sequences, FiniteSets, SequencesExt, TLC

Keys == {Table[i].key : i \in 1..Len(Table)}
Row(key) == Table[CHOOSE i \in 1..Len(Table) : Table[i].key = key]
Get(d, key) == IF key \in DOMAIN d THEN d[key] ELSE <<>>

Dec1(n) == <<48 + (n % 10)>>
RECURSIVE DecN(_)
DecN(n) == IF n < 10 THEN <<48 + n>> ELSE DecN(n \div 10) \o <<48 + (n % 10)>>
Dec(n) == IF n < 0 THEN <<45>> \o DecN(-n) ELSE DecN(n)
Dec2(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Dec4(n) == Dec2(n \div 100) \o Dec2(n % 100)

---------------------------------------------------------------------------
(* Texts *)
RECURSIVE LStrip(_, _)
LStrip(s, C) == IF s = <<>> \/ Head(s) \notin C THEN s ELSE LStrip(Tail(s), C)
Strip2(s, C) == Reverse(LStrip(Reverse(LStrip(s, C)), C))
Blank == {32, 9, 11, 10, 13, 0}
PyBlank == {32, 9, 10, 11, 12, 13, 28, 29, 30, 31}
\* any run of carriage returns and newlines is one newline
RECURSIVE Newlines(_)
Newlines(s) == IF s = <<>> THEN <<>>
               ELSE IF Head(s) \notin {10, 13} THEN <<Head(s)>> \o Newlines(Tail(s))
               ELSE <<10>> \o Newlines(LStrip(s, {10, 13}))
More == <<40, 46, 46, 46, 41>>
Cut_(s, max) == IF max > 0 /\ Len(s) > max THEN SubSeq(s, 1, max) \o More ELSE s

\* control codes are escaped, \x01 is \1 if no octal digit follows
Hex == [i \in 0..15 |-> IF i < 10 THEN 48 + i ELSE 87 + i]
Esc(c) == CASE c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
            [] c = 7 -> <<92, 97>> [] c = 8 -> <<92, 98>>
            [] c \in (0..31 \cup {127}) \ {7, 8, 9, 10, 13} -> <<92, 120, Hex[c \div 16], Hex[c % 16]>>
            [] OTHER -> <<c>>
RECURSIVE Short(_)
Short(s) == IF Len(s) < 4 THEN s
            ELSE IF /\ SubSeq(s, 1, 3) = <<92, 120, 48>> /\ s[4] \in 48..55
                    /\ Len(s) = 4 \/ s[5] \notin 48..55
                 THEN <<92, s[4]>> \o Short(SubSeq(s, 5, Len(s)))
                 ELSE <<s[1]>> \o Short(Tail(s))
Printable(s) == Short(FlattenSeq([i \in 1..Len(s) |-> Esc(s[i])]))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

---------------------------------------------------------------------------
(* Dates *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
DateOk(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..Days(y, m)
\* day number
DayNo(y, m, d) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
                  + d + FoldSeq(LAMBDA i, acc : acc + Days(y, i), 0, [i \in 1..(m - 1) |-> i])
\* instant in UTC: <<day, second>>
Instant(v) == LET sec == v.s[4] * 3600 + v.s[5] * 60 + v.s[6] - (IF v.n = 99 THEN 0 ELSE v.n * 3600)
                  day == DayNo(v.s[1], v.s[2], v.s[3])
              IN IF sec < 0 THEN <<day - 1, sec + 86400>>
                 ELSE IF sec >= 86400 THEN <<day + 1, sec - 86400>> ELSE <<day, sec>>
MkDate(y, m, d) == [k |-> "date", s |-> <<y, m, d>>, n |-> 0, f |-> 0, u |-> <<>>]
MkDt(q, tz) == [k |-> "dt", s |-> q, n |-> tz, f |-> 0, u |-> <<>>]
Iso(v) == Dec4(v.s[1]) \o <<45>> \o Dec2(v.s[2]) \o <<45>> \o Dec2(v.s[3]) \o
          (IF v.k = "date" THEN <<>> ELSE
           <<32>> \o Dec2(v.s[4]) \o <<58>> \o Dec2(v.s[5]) \o <<58>> \o Dec2(v.s[6]) \o
           (IF v.n = 99 \/ v.f # 0 THEN <<>>
            ELSE <<IF v.n < 0 THEN 45 ELSE 43>> \o Dec2(IF v.n < 0 THEN -v.n ELSE v.n) \o <<58, 48, 48>>))

\* texts of dates: separators are - / . : and space
Sep == {45, 47, 46, 58, 32}
RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN <<>>
           ELSE IF Head(s) \notin Sep THEN <<Head(s)>> \o Norm(Tail(s))
           ELSE <<126>> \o Norm(LStrip(s, Sep))
RECURSIVE Tokens(_, _)
Tokens(s, cur) == IF s = <<>> THEN <<cur>>
                  ELSE IF Head(s) = 126 THEN <<cur>> \o Tokens(Tail(s), <<>>)
                  ELSE Tokens(Tail(s), Append(cur, Head(s)))
Num(t) == FoldSeq(LAMBDA c, acc : acc * 10 + c - 48, 0, t)
Digits(t, lo, hi) == Len(t) \in lo..hi /\ \A i \in 1..Len(t) : t[i] \in 48..57
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
DayNames == <<<<109, 111, 110>>, <<116, 117, 101>>, <<119, 101, 100>>, <<116, 104, 117>>,
              <<102, 114, 105>>, <<115, 97, 116>>, <<115, 117, 110>>>>
Months == <<<<106, 97, 110, 117, 97, 114, 121>>, <<102, 101, 98, 114, 117, 97, 114, 121>>,
            <<109, 97, 114, 99, 104>>, <<97, 112, 114, 105, 108>>, <<109, 97, 121>>,
            <<106, 117, 110, 101>>, <<106, 117, 108, 121>>, <<97, 117, 103, 117, 115, 116>>,
            <<115, 101, 112, 116, 101, 109, 98, 101, 114>>, <<111, 99, 116, 111, 98, 101, 114>>,
            <<110, 111, 118, 101, 109, 98, 101, 114>>, <<100, 101, 99, 101, 109, 98, 101, 114>>>>
Pos(t, names) == LET M == {i \in 1..Len(names) : names[i] = t}
                 IN IF M = {} THEN 0 ELSE CHOOSE i \in M : TRUE
Bad == [ok |-> FALSE, v |-> MkDate(1, 1, 1), t |-> <<>>]
Ok(v, t) == [ok |-> TRUE, v |-> v, t |-> t]
Clock(h, mi, s) == Digits(h, 1, 2) /\ Digits(mi, 2, 2) /\ Digits(s, 1, 2)
                   /\ Num(h) < 24 /\ Num(mi) < 60 /\ Num(s) < 60
\* the zone: "+hh00" after a separator
Zone(s) ==
  LET n == Len(s) IN
  IF /\ n >= 6 /\ s[n] = 48 /\ s[n - 1] = 48 /\ Digits(SubSeq(s, n - 3, n - 2), 2, 2)
     /\ s[n - 4] \in {43, 45} /\ s[n - 5] \in Sep /\ Num(SubSeq(s, n - 3, n - 2)) < 24
  THEN [z |-> (IF s[n - 4] = 45 THEN -1 ELSE 1) * Num(SubSeq(s, n - 3, n - 2)),
        rest |-> Reverse(LStrip(Reverse(SubSeq(s, 1, n - 5)), Sep))]
  ELSE [z |-> 99, rest |-> s]
\* a minute of one digit is read in the texts with names only
Named(T) ==
  IF Len(T) = 7 /\ Len(T[1]) = 4 /\ T[1][4] = 44 /\ Pos(Lower(SubSeq(T[1], 1, 3)), DayNames) > 0
  THEN [on |-> TRUE, d |-> T[2], m |-> T[3], y |-> T[4], h |-> T[5], mi |-> T[6], s |-> T[7]]
  ELSE IF Len(T) = 7 /\ Pos(Lower(T[1]), DayNames) > 0
  THEN [on |-> TRUE, m |-> T[2], d |-> T[3], h |-> T[4], mi |-> T[5], s |-> T[6], y |-> T[7]]
  ELSE [on |-> FALSE]
DateOf(s0) ==
  LET s == Strip2(s0, PyBlank)
      T == Tokens(Norm(s), <<>>)
      z == Zone(s)
      N == Named(Tokens(Norm(z.rest), <<>>))
  IN
  CASE Len(T) = 1 /\ Digits(T[1], 4, 4) ->
         IF Num(T[1]) = 0 THEN Bad ELSE Ok(MkDate(Num(T[1]), 1, 1), <<Dec(Num(T[1]))>>)
    [] Len(T) = 3 /\ Digits(T[1], 4, 4) /\ Digits(T[2], 2, 2) /\ Digits(T[3], 2, 2) ->
         IF DateOk(Num(T[1]), Num(T[2]), Num(T[3]))
         THEN Ok(MkDate(Num(T[1]), Num(T[2]), Num(T[3])), <<>>) ELSE Bad
    [] Len(T) = 6 /\ Digits(T[1], 4, 4) /\ Digits(T[2], 2, 2) /\ Digits(T[3], 2, 2) ->
         IF DateOk(Num(T[1]), Num(T[2]), Num(T[3])) /\ Clock(T[4], T[5], T[6])
         THEN Ok(MkDt(<<Num(T[1]), Num(T[2]), Num(T[3]), Num(T[4]), Num(T[5]), Num(T[6])>>, 99), <<>>)
         ELSE Bad
    [] Len(T) = 6 /\ Digits(T[1], 1, 2) /\ Digits(T[2], 2, 2) /\ Digits(T[3], 4, 4) ->
         IF DateOk(Num(T[3]), Num(T[1]), Num(T[2])) /\ Clock(T[4], T[5], T[6])
         THEN Ok(MkDt(<<Num(T[3]), Num(T[1]), Num(T[2]), Num(T[4]), Num(T[5]), Num(T[6])>>, 99), <<>>)
         ELSE Bad
    [] Len(T) = 2 /\ Pos(Lower(T[1]), Months) > 0 /\ Digits(T[2], 4, 4) ->
         IF Num(T[2]) = 0 THEN Bad ELSE Ok(MkDate(Num(T[2]), Pos(Lower(T[1]), Months), 1), <<>>)
    [] N.on ->
         LET mo == Pos(Lower(N.m), [i \in 1..12 |-> SubSeq(Months[i], 1, 3)]) IN
         IF /\ Digits(N.d, 1, 2) /\ Digits(N.y, 4, 4) /\ mo > 0
            /\ Digits(N.h, 1, 2) /\ Digits(N.mi, 1, 2) /\ Digits(N.s, 1, 2)
            /\ Num(N.h) < 24 /\ Num(N.mi) < 60 /\ Num(N.s) < 60
            /\ DateOk(Num(N.y), mo, Num(N.d))
         THEN Ok(MkDt(<<Num(N.y), mo, Num(N.d), Num(N.h), Num(N.mi), Num(N.s)>>, z.z), <<>>)
         ELSE Bad
    [] OTHER -> Bad

---------------------------------------------------------------------------
(* Conversions *)
MkInt(n) == [k |-> "int", s |-> <<>>, n |-> n, f |-> 0, u |-> Dec(n)]
IntOf(s) == LET a == Strip2(s, PyBlank)
                b == IF a # <<>> /\ a[1] \in {43, 45} THEN Tail(a) ELSE a
            IN IF Digits(b, 1, 9) THEN Ok(MkInt(IF a[1] = 45 THEN -Num(b) ELSE Num(b)), <<>>) ELSE Bad
Langs == {<<102, 114, 101>>, <<103, 101, 114>>, <<101, 110, 103>>, <<115, 112, 97>>}
TotalOf(v) == CASE v.k \in {"str", "bytes"} -> IntOf(v.s)
                [] v.k = "int" -> Ok(v, <<>>)
                [] v.k = "num" -> Ok(MkInt(IF v.n < 0 /\ v.f > 0 THEN v.n + 1 ELSE v.n), <<>>)
                [] OTHER -> Bad
Conv(c, v) ==
  CASE c = "date" -> IF v.k = "str" THEN DateOf(v.s)
                     ELSE IF v.k \in {"date", "dt"} THEN Ok(v, <<>>) ELSE Bad
    [] c = "lang" -> IF v.k = "str" /\ v.s \in Langs
                     THEN Ok([v EXCEPT !.k = "lang"], <<>>) ELSE Bad
    [] c = "track" -> IF v.k = "int" THEN Ok(v, <<>>)
                      ELSE IF v.k # "str" THEN Bad
                      ELSE LET C == {i \in 1..Len(v.s) : v.s[i] = 47}
                           IN IF C = {} THEN IntOf(v.s)
                              ELSE IntOf(SubSeq(v.s, 1, (CHOOSE i \in C : \A j \in C : i <= j) - 1))
    [] c = "total" -> TotalOf(v)

TypeOk(ty, v) ==
  CASE ty = "any" -> TRUE
    [] ty = "str" -> v.k = "str"
    [] ty = "int" -> v.k = "int"
    [] ty = "num" -> v.k \in {"int", "num"}
    [] ty = "float" -> v.k = "num"
    [] ty = "delta" -> v.k = "delta"
    [] ty = "date" -> v.k \in {"date", "dt"}
    [] ty = "lang" -> v.k = "lang"
LE2(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* years 1850..2030 (the last day counts up to midnight)
RangeOk(row, v) ==
  CASE row.filter # <<>> /\ (v.k \in {"int", "num"} \/ (v.k = "delta" /\ row.type = "delta")) ->
         LE2(row.filter[1], <<v.n, v.f>>) /\ LE2(<<v.n, v.f>>, row.filter[2])
    [] row.type = "date" /\ v.k = "date" -> v.s[1] \in 1850..2030
    [] row.type = "date" /\ v.k = "dt" ->
         /\ LE2(<<DayNo(1850, 1, 1), 0>>, Instant(v))
         /\ LE2(Instant(v), <<DayNo(2030, 12, 31), 0>>)
         /\ Instant(v) = <<DayNo(2030, 12, 31), 0>> => v.f = 0
    [] OTHER -> TRUE

SameVal(a, b) ==
  CASE a.k \in {"int", "num"} /\ b.k \in {"int", "num"} -> a.n = b.n /\ a.f = b.f
    [] a.k = "dt" /\ b.k = "dt" -> (a.n = 99) = (b.n = 99) /\ Instant(a) = Instant(b) /\ a.f = b.f
    [] a.k = b.k /\ a.k \in {"delta"} -> a.n = b.n /\ a.f = b.f
    [] a.k = b.k -> a.s = b.s
    [] OTHER -> FALSE

---------------------------------------------------------------------------
(* Adding a value: data of the register afterwards.                         *)
RECURSIVE Add(_, _, _, _, _)
Add(d, key, v0, t0, cfg) ==
  LET row == Row(key)
      old == Get(d, key)
      c == IF row.conv = "none"
           THEN Ok(IF v0.k = "bytes" THEN [v0 EXCEPT !.k = "str"] ELSE v0, <<>>)
           ELSE Conv(row.conv, v0)
      \* "3/12": track 3 of 12
      d1 == IF row.conv = "track" /\ v0.k = "str" /\ 47 \in ToSet(v0.s)
            THEN LET C == {i \in 1..Len(v0.s) : v0.s[i] = 47}
                     i == CHOOSE i \in C : \A j \in C : i <= j
                 IN Add(d, "track_total", [v0 EXCEPT !.s = SubSeq(@, i + 1, Len(@))], <<>>, cfg)
            ELSE d
      t == IF t0 # <<>> THEN t0 ELSE c.t
      w == IF c.v.k = "str"
           THEN [c.v EXCEPT !.s = Cut_(Newlines(IF cfg.raw THEN @ ELSE Strip2(@, Blank)), cfg.max)]
           ELSE c.v
      item == [v |-> w, t |-> IF t # <<>> THEN t ELSE IF w.k = "str" THEN <<w.s>> ELSE <<>>]
      Ext == {i \in 1..Len(old) : old[i].v.k = "str" /\ IsPrefixOf(old[i].v.s, w.s)}
      Pre == {i \in 1..Len(old) : old[i].v.k = "str" /\ IsPrefixOf(w.s, old[i].v.s)}
  IN IF v0.k = "none" \/ ~c.ok THEN d1
     ELSE IF w.k = "str" /\ w.s = <<>> THEN d1
     ELSE IF ~TypeOk(row.type, w) \/ \E i \in 1..Len(old) : SameVal(old[i].v, w) THEN d1
     ELSE IF ~RangeOk(row, w) THEN d1
     ELSE IF w.k = "str" /\ Ext # {}
          THEN (key :> [old EXCEPT ![CHOOSE i \in Ext : TRUE] = item]) @@ d1
     ELSE IF w.k = "str" /\ Pre # {} THEN d1
     ELSE (key :> Append(old, item)) @@ d1

---------------------------------------------------------------------------
(* Texts of values *)
TextOk(h, v, t) ==
  CASE v.k = "str" -> t = v.s
    [] h = "plain" -> t = Printable(v.u)
    [] h = "pixels" -> t = v.u \o <<32, 112, 105, 120, 101, 108, 115>>
    [] h = "dpi" -> t = v.u \o <<32, 68, 80, 73>>
    [] h = "chan" -> t = (IF <<v.n, v.f>> = <<1, 0>> THEN <<109, 111, 110, 111>>
                          ELSE IF <<v.n, v.f>> = <<2, 0>> THEN <<115, 116, 101, 114, 101, 111>> ELSE v.u)
    [] h = "dt" -> t = Iso(v)
    [] OTHER -> TRUE

---------------------------------------------------------------------------
(* Exports *)
RECURSIVE SortRows(_)
SortRows(I) == IF I = {} THEN <<>>
               ELSE LET i == CHOOSE i \in I : \A j \in I : Table[i].prio < Table[j].prio
                                            \/ (Table[i].prio = Table[j].prio /\ i <= j)
                    IN <<i>> \o SortRows(I \ {i})
Order == SortRows(1..Len(Table))
Limit(p) == IF p = -1 THEN 999 ELSE IF p < 100 THEN 100 ELSE IF p > 999 THEN 999 ELSE p
\* rows listed: with values, priority in the limit
Rows(d, p) == SelectSeq(Order, LAMBDA i : Table[i].prio <= Limit(p) /\ Get(d, Table[i].key) # <<>>)
Text(it, human) == IF human THEN it.t[1] ELSE Printable(it.v.u)
Lines(d, hdr, p, human, prefix) ==
  LET R == Rows(d, p)
      One(i) == LET row == Table[i] IN
                [j \in 1..Len(d[row.key]) |->
                   prefix \o (IF human THEN row.desc ELSE row.kc) \o <<58, 32>>
                   \o Text(d[row.key][j], human)]
  IN IF R = <<>> THEN <<>>
     ELSE <<hdr \o <<58>>>> \o FlattenSeq([i \in 1..Len(R) |-> One(R[i])])
\* the dictionary keeps the last value of a key
Fields(d, p, human) ==
  LET R == Rows(d, p)
  IN [i \in 1..Len(R) |-> LET row == Table[R[i]] q == d[row.key] IN
       [k |-> IF human THEN row.desc ELSE row.kc, t |-> Text(q[Len(q)], human)]]
=============================================================================
