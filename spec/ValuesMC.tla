------------------------------ MODULE ValuesMC ------------------------------
(***************************************************************************)
(* An odometer and a calendar which are advanced one tick at a time, by    *)
(* the rules everybody knows (a digit which is full returns to zero and    *)
(* the next one advances; February has 29 days in leap years), compared at *)
(* every tick with the closed forms of Values.                             *)
(***************************************************************************)
EXTENDS Values
CONSTANTS MODE, FromYear, ToYear, Ticks
VARIABLES n, c        \* ticks so far, what the clock shows

\* a small clock: 3 ticks a second, 4 seconds a minute, 5 minutes a day
Radix == <<0, 5, 4, 3>>
RECURSIVE BitsOfNat(_)
BitsOfNat(v) == IF v = 0 THEN <<>> ELSE Append(BitsOfNat(v \div 2), (v % 2))

Tick(d) == IF d[4] < 2 THEN [d EXCEPT ![4] = @ + 1]
           ELSE IF d[3] < 3 THEN [d EXCEPT ![3] = @ + 1, ![4] = 0]
           ELSE IF d[2] < 4 THEN [d EXCEPT ![2] = @ + 1, ![3] = 0, ![4] = 0]
           ELSE <<d[1] + 1, 0, 0, 0>>
Tomorrow(d) == IF d[3] < MonthDays(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
               ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>>
               ELSE <<d[1] + 1, 1, 1>>

Init == IF MODE = "clock" THEN n = 0 /\ c = <<0, 0, 0, 0>>
        ELSE n = DayNo(FromYear, 1, 1) /\ c = <<FromYear, 1, 1>>
Next == /\ IF MODE = "clock" THEN n < Ticks /\ c' = Tick(c) ELSE c[1] < ToYear /\ c' = Tomorrow(c)
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<n, c>>

Right == IF MODE = "clock"
         THEN /\ Split(BitsOfNat(n), Radix) = c
              /\ Number(BitsOfNat(n)) = n
              /\ DecBits(BitsOfNat(n)) = ToString(n)
              /\ Dec(n) = ToString(n)
         ELSE /\ Civil(n) = c
              /\ DayNo(c[1], c[2], c[3]) = n
\* every day of the calendar is a day of its month
Possible == MODE # "clock" => c[2] \in 1..12 /\ c[3] \in 1..MonthDays(c[1], c[2])
\* a month has the same length in both views
Whole == MODE # "clock" /\ c[3] = 1 =>
           LET d == Civil(n + MonthDays(c[1], c[2])) IN d[3] = 1 /\ d[2] # c[2]

\* closed forms against other closed forms, small numbers
ASSUME \A v \in 0..2100 : \A a \in {1, 2, 3, 4, 8, 16, 512} :
         v < 40 \/ a < 9 => Aligned(v, a) = a * ((v + a - 1) \div a)
\* rounded thousandths are the closest ones
ASSUME \A a \in {0, 7}, x \in 0..999 :
         \A t \in Hundredths(a, x, "") : \E y \in 0..100 :
             t = Dec(a + (y \div 100)) \o "." \o DecN((y % 100), 2) \o " "
             /\ (10 * y) - x \in -5..5
ASSUME Milli(6402309) = "1 hours 46 min 42 sec" /\ Milli(213) = "213 ms" /\ Milli(0) = "0 ms"
ASSUME Nano(60417893) = {"60.42 ms"}
ASSUME FileSize(BitsOfNat(256960)) = {"250.9 KB"} /\ FileSize(BitsOfNat(790)) = {"790 bytes"}
ASSUME Kilo(<<2, 5, 6, 9, 6, 0>>, BitUnits, "") = {"257.0 Kbit"}
ASSUME Rights(<<0,0,0,0, 0,1,0, 1,1,1, 1,0,1, 1,0,1>>) = "-rwxr-sr-x (2755)"
\* IEEE numbers: 1, -2.5, the smallest float, infinity
ASSUME Ieee(0, <<0,1,1,1,1,1,1,1>>, [i \in 1..23 |-> 0]) = [k |-> "num", neg |-> 0, e |-> 0, f |-> Zero52]
ASSUME Ieee(1, <<1,0,0,0,0,0,0,0>>, [i \in 1..23 |-> IF i = 2 THEN 1 ELSE 0]).e = 1
ASSUME Ieee(0, [i \in 1..8 |-> 0], [i \in 1..23 |-> IF i = 23 THEN 1 ELSE 0]).e = -149
=============================================================================
