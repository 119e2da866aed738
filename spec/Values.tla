------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What numbers stored in files denote: instants (dates), spans of time,   *)
(* MS-DOS dates, IEEE 754 numbers, and their texts (hachoir/field/         *)
(* timestamp.py, float.py, hachoir/core/tools.py).                         *)
(*                                                                         *)
(* Stored numbers are sequences of bits, most significant first, because   *)
(* they have up to 80 bits and TLC integers 32.  A stored number is split  *)
(* in days, seconds and ticks by doubling a number in a mixed radix:       *)
(* digits <<hi, ..., lo>>, every digit but the first below its radix.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ceiling == 1000000000        \* the first digit stops growing here
RECURSIVE Doubled(_, _, _, _)
\* twice the number d plus carry c, from digit i up
Doubled(d, radix, i, c) ==
  LET v == 2 * d[i] + c
  IN IF i = 1 THEN [d EXCEPT ![1] = IF v > Ceiling THEN Ceiling ELSE v]
     ELSE Doubled([d EXCEPT ![i] = (v % radix[i])], radix, i - 1, v \div radix[i])
RECURSIVE Horner(_, _, _, _)
Horner(bits, radix, i, d) ==
  IF i > Len(bits) THEN d ELSE Horner(bits, radix, i + 1, Doubled(d, radix, Len(d), bits[i]))
\* digits of the number `bits' in the mixed radix (radix[1] is not used)
Split(bits, radix) == Horner(bits, radix, 1, [i \in 1..Len(radix) |-> 0])

RECURSIVE Number(_)
Number(bits) == IF bits = <<>> THEN 0 ELSE (2 * Number(SubSeq(bits, 1, Len(bits) - 1))) + bits[Len(bits)]

---------------------------------------------------------------------------
(* Decimal texts *)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Glue(_)
Glue(texts) == IF texts = <<>> THEN "" ELSE texts[1] \o Glue(Tail(texts))
RECURSIVE Joined(_, _)
Joined(texts, sep) == IF texts = <<>> THEN ""
                      ELSE IF Len(texts) = 1 THEN texts[1]
                      ELSE texts[1] \o sep \o Joined(Tail(texts), sep)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN Digit[n + 1] ELSE Dec(n \div 10) \o Digit[(n % 10) + 1]
RECURSIVE DecN(_, _)
DecN(n, k) == IF k = 0 THEN "" ELSE DecN(n \div 10, k - 1) \o Digit[(n % 10) + 1]
RECURSIVE Bare(_)
Bare(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Bare(Tail(d)) ELSE d
\* decimal digits: limbs below 10^8, four bits at a time
Limb == 100000000
RECURSIVE Times16(_, _, _)
Times16(d, i, c) ==
  IF i = 0 THEN d
  ELSE LET v == (16 * d[i]) + c
       IN Times16([d EXCEPT ![i] = (v % Limb)], i - 1, v \div Limb)
RECURSIVE LimbsOf(_, _, _)
LimbsOf(bits, i, d) ==
  IF i > Len(bits) THEN d
  ELSE LimbsOf(bits, i + 4, Times16(d, Len(d),
         (8 * bits[i]) + (4 * bits[i + 1]) + (2 * bits[i + 2]) + bits[i + 3]))
RECURSIVE Eight(_, _)
Eight(n, k) == IF k = 0 THEN <<>> ELSE Append(Eight(n \div 10, k - 1), (n % 10))
DigitsOf(bits) ==
  LET pad == [i \in 1..((4 - (Len(bits) % 4)) % 4) |-> 0] \o bits
      l == LimbsOf(pad, 1, [i \in 1..((Len(pad) \div 26) + 1) |-> 0])
  IN Bare(FlattenSeq([i \in 1..Len(l) |-> Eight(l[i], 8)]))
DecBits(bits) == LET d == DigitsOf(bits) IN Glue([i \in 1..Len(d) |-> Digit[d[i] + 1]])

---------------------------------------------------------------------------
(* The Gregorian calendar *)
Leap(y) == ((y % 4) = 0 /\ (y % 100) # 0) \/ (y % 400) = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                   ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days since the 1st March of the year 0
DayNo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m <= 2 THEN m + 9 ELSE m - 3
  IN (365 * yy) + (yy \div 4) - (yy \div 100) + (yy \div 400)
     + (((153 * mm) + 2) \div 5) + d - 1
Civil(n) ==
  LET era == n \div 146097
      doe == (n % 146097)
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - ((365 * yoe) + (yoe \div 4) - (yoe \div 100))
      mp  == ((5 * doy) + 2) \div 153
      d   == doy - (((153 * mp) + 2) \div 5) + 1
      m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y   == (era * 400) + yoe + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
LastDay == DayNo(9999, 12, 31)

\* an instant: day number, second of the day, microsecond -> date and time
Instant(day, sec, us) ==
  LET c == Civil(day)
  IN c \o <<sec \div 3600, ((sec \div 60) % 60), (sec % 60), us>>

---------------------------------------------------------------------------
(* Values.  <<>> : the number stored denotes nothing.  Otherwise the set   *)
(* of acceptable values: tenths of microseconds fall between two           *)
(* microseconds.                                                           *)
DayRadix == <<0, 86400>>
TickRadix == <<0, 86400, 10000000>>
MilliRadix == <<0, 86400, 1000>>

\* the microsecond before or the one behind
Later(p) == IF p[3] < 999999 THEN <<p[1], p[2], p[3] + 1>>
            ELSE IF p[2] < 86399 THEN <<p[1], p[2] + 1, 0>>
            ELSE <<p[1] + 1, 0, 0>>
TickSpans(bits) ==
  LET s == Split(bits, TickRadix)
      p == <<s[1], s[2], s[3] \div 10>>
  IN IF (s[3] % 10) = 0 THEN {p} ELSE {p, Later(p)}
\* Dates of UUIDs go through a double (the project's own tests pin this
\* rounding): exact below 2^53 microseconds, then within half a unit
Shift(p, k) ==
  LET u == p[3] + k
      t == IF u < 0 THEN p[2] - 1 ELSE IF u > 999999 THEN p[2] + 1 ELSE p[2]
  IN <<IF t < 0 THEN p[1] - 1 ELSE IF t > 86399 THEN p[1] + 1 ELSE p[1],
       (t + 86400) % 86400, (u + 1000000) % 1000000>>
UuidSpans(bits) ==
  LET s == Split(bits, TickRadix)
      off == IF bits[1] = 1 \/ bits[2] = 1 \/ bits[3] = 1 THEN 9
             ELSE IF bits[4] = 1 THEN 1 ELSE 0
  IN IF off = 0 THEN TickSpans(bits)
     ELSE {Shift(<<s[1], s[2], s[3] \div 10>>, k) : k \in (0 - off)..off}
MilliSpan(bits) == LET s == Split(bits, MilliRadix) IN <<s[1], s[2], s[3] * 1000>>
SecondSpan(bits) == LET s == Split(bits, DayRadix) IN <<s[1], s[2], 0>>

Dated(spans, from) ==
  {IF p[1] > LastDay - from THEN <<>> ELSE Instant(from + p[1], p[2], p[3]) : p \in spans}
\* a span of time is at most 999999999 days
Span(p) == IF p[1] > 999999999 THEN <<>> ELSE p
Zeros(bits) == \A i \in 1..Len(bits) : bits[i] = 0

Kinds == {"TimestampUnix32", "TimestampUnix64", "TimestampMac32", "TimestampWin64",
          "TimestampUUID60", "TimedeltaWin64", "TimedeltaMillisWin64"}
Width(kind) == CASE kind \in {"TimestampUnix32", "TimestampMac32"} -> 32
                 [] kind = "TimestampUUID60" -> 60
                 [] OTHER -> 64
TimeValues(kind, bits) ==
  CASE kind \in {"TimestampUnix32", "TimestampUnix64"} ->
         IF Zeros(SubSeq(bits, 1, Len(bits) - 31))
         THEN Dated({SecondSpan(bits)}, DayNo(1970, 1, 1)) ELSE {<<>>}
    [] kind = "TimestampMac32" -> Dated({SecondSpan(bits)}, DayNo(1904, 1, 1))
    [] kind = "TimestampWin64" -> Dated(TickSpans(bits), DayNo(1601, 1, 1))
    [] kind = "TimestampUUID60" -> Dated(UuidSpans(bits), DayNo(1582, 10, 15))
    [] kind = "TimedeltaWin64" -> {Span(p) : p \in TickSpans(bits)}
    [] kind = "TimedeltaMillisWin64" -> {Span(MilliSpan(bits))}

\* MS-DOS: parts are numbers; a month or day of 0 counts as 1
DosValue(p) ==
  LET y == 1980 + p.year
      m == IF p.month = 0 THEN 1 ELSE p.month
      d == IF p.day = 0 THEN 1 ELSE p.day
  IN IF m > 12 \/ p.hour > 23 \/ p.minute > 59 \/ p.second > 29 THEN <<>>
     ELSE IF d > MonthDays(y, m) THEN <<>>
     ELSE <<y, m, d, p.hour, p.minute, 2 * p.second, 0>>

(* texts of an instant and of a span *)
DateText(v) == DecN(v[1], 4) \o "-" \o DecN(v[2], 2) \o "-" \o DecN(v[3], 2) \o " "
               \o DecN(v[4], 2) \o ":" \o DecN(v[5], 2) \o ":" \o DecN(v[6], 2)
LongDateText(v) == IF v[7] = 0 THEN DateText(v) ELSE DateText(v) \o "." \o DecN(v[7], 6)
\* the three most significant parts which are not zero
SpanText(v) ==
  LET parts == <<<<v[1] \div 365, "years">>, <<(v[1] % 365), "days">>,
                 <<v[2] \div 3600, "hours">>, <<((v[2] \div 60) % 60), "min">>,
                 <<(v[2] % 60), "sec">>, <<v[3] \div 1000, "ms">>>>
      some == SelectSeq(parts, LAMBDA p : p[1] > 0)
      first == SubSeq(some, 1, IF Len(some) < 3 THEN Len(some) ELSE 3)
  IN IF some = <<>> THEN "0 ms"
     ELSE Joined([i \in 1..Len(first) |-> Dec(first[i][1]) \o " " \o first[i][2]], " ")
TimeText(kind, v) ==
  IF v = <<>> THEN ""
  ELSE IF kind \in {"TimedeltaWin64", "TimedeltaMillisWin64"} THEN SpanText(v) ELSE DateText(v)

---------------------------------------------------------------------------
(* IEEE 754.  A number is [k, neg, e, f]: k in "zero" "num" "inf" "nan",   *)
(* num = (-1)^neg * 1.f * 2^e with f 52 bits.                              *)
Zero52 == [i \in 1..52 |-> 0]
Grown(f) == SubSeq(f \o Zero52, 1, 52)
Lead(f) == CHOOSE i \in 1..Len(f) : f[i] = 1 /\ \A j \in 1..(i - 1) : f[j] = 0
Ieee(sign, expo, frac) ==
  LET bias == (2 ^ (Len(expo) - 1)) - 1
      E == Number(expo)
      top == (2 ^ Len(expo)) - 1
  IN IF E = top THEN IF Zeros(frac) THEN [k |-> "inf", neg |-> sign, e |-> 0, f |-> Zero52]
                     ELSE [k |-> "nan", neg |-> 0, e |-> 0, f |-> Zero52]
     ELSE IF E = 0 THEN
       IF Zeros(frac) THEN [k |-> "zero", neg |-> sign, e |-> 0, f |-> Zero52]
       ELSE LET i == Lead(frac)
            IN [k |-> "num", neg |-> sign, e |-> 1 - bias - i,
                f |-> Grown(SubSeq(frac, i + 1, Len(frac)))]
     ELSE [k |-> "num", neg |-> sign, e |-> E - bias, f |-> Grown(frac)]
RECURSIVE Next52(_, _)
Next52(f, i) == IF i = 0 THEN f
                ELSE IF f[i] = 0 THEN [f EXCEPT ![i] = 1] ELSE Next52([f EXCEPT ![i] = 0], i - 1)
None754 == [k |-> "none", neg |-> 0, e |-> 0, f |-> Zero52]
\* the acceptable values for a float of the width
Floats(w, bits) ==
  IF w = 32 THEN {Ieee(bits[1], SubSeq(bits, 2, 9), SubSeq(bits, 10, 32))}
  ELSE IF w = 64 THEN {Ieee(bits[1], SubSeq(bits, 2, 12), SubSeq(bits, 13, 64))}
  ELSE \* 80 bits: an explicit one, then 63 bits; a double holds 52 of them
    LET E == Number(SubSeq(bits, 2, 16)) - 16383
        f == SubSeq(bits, 18, 80)
        lo == SubSeq(f, 1, 52)
        hi == Next52(lo, 52)
        N(e, ff) == [k |-> "num", neg |-> bits[1], e |-> e, f |-> ff]
    IN IF Zeros(SubSeq(bits, 2, 80)) THEN {[k |-> "zero", neg |-> bits[1], e |-> 0, f |-> Zero52]}
       ELSE IF E > 1023 THEN {None754}
       ELSE IF Zeros(SubSeq(f, 53, 63)) THEN {N(E, lo)}
       ELSE {N(E, lo), IF Zeros(hi) THEN N(E + 1, hi) ELSE N(E, hi)}

---------------------------------------------------------------------------
(* Texts of quantities *)
\* digits of a number in units of 1000^k with one decimal: the acceptable
\* texts (a tie may be rounded either way)
Tenths(whole, tenth, above, tie) ==
  LET low == <<whole, tenth>>
      up == IF tenth = 9 THEN <<whole + 1, 0>> ELSE <<whole, tenth + 1>>
      T(p) == Dec(p[1]) \o "." \o Digit[p[2] + 1]
  IN IF tie THEN {T(low), T(up)} ELSE IF above THEN {T(up)} ELSE {T(low)}

RECURSIVE Val10(_)
Val10(d) == IF d = <<>> THEN 0 ELSE (10 * Val10(SubSeq(d, 1, Len(d) - 1))) + d[Len(d)]
\* d decimal digits, most significant first
Kilo(d, units, last) ==
  LET n == Len(d)
      k == IF n <= 3 THEN 0 ELSE (n - 1) \div 3
      kk == IF k > 4 THEN 4 ELSE k
      whole == SubSeq(d, 1, n - (3 * kk))
      frac == SubSeq(d, n - (3 * kk) + 1, n)
      rest == Tail(frac)
      big == frac[2] >= 5
      tie == frac[2] = 5 /\ \A i \in 2..Len(rest) : rest[i] = 0
  IN IF k = 0 THEN {Dec(Val10(d)) \o " " \o units[1]}
     ELSE IF k > 4 THEN {Glue([i \in 1..Len(whole) |-> Digit[whole[i] + 1]]) \o last}
     ELSE {t \o " " \o units[k + 1] : t \in Tenths(Val10(whole), frac[1], big, tie)}
BitUnits == <<"bits", "Kbit", "Mbit", "Gbit", "Tbit">>
HzUnits == <<"Hz", "kHz", "MHz", "GHz", "THz">>

\* file sizes: units of 1024; below 10000 the number of bytes
ByteUnits == <<"KB", "MB", "GB", "TB">>
Limbs == [i \in 1..8 |-> 1024]
FileSize(bits) ==
  LET l == Split(bits, Limbs)                \* l[8] bytes, l[7] KB, ...
      d == Bare(l)
      k == Len(d) - 1
      rest(i) == IF i <= Len(d) THEN d[i] ELSE 0
      ten == 10 * rest(2)                    \* tenths, then what is left
      c == (10 * rest(3)) \div 1024          \* carries of the lower limbs
      c2 == (10 * rest(4)) \div 1024
      l5 == (10 * rest(5)) \div 1024
      v4 == ((10 * rest(4)) % 1024) + l5
      v3 == ((10 * rest(3)) % 1024) + c2 + (v4 \div 1024)
      v2 == ten + c + (v3 \div 1024)
      tenth == v2 \div 1024
      r2 == (v2 % 1024)
      r3 == (v3 % 1024)
      r4 == (v4 % 1024)
      r5 == ((10 * rest(5)) % 1024)
      tie == r2 = 512 /\ r3 = 0 /\ r4 = 0 /\ r5 = 0
      above == r2 >= 512
  IN IF k = 0 \/ (k = 1 /\ ((1024 * d[1]) + d[2]) < 10000)
     THEN {Dec(IF k = 0 THEN d[1] ELSE (1024 * d[1]) + d[2]) \o " bytes"}
     ELSE IF k > 4 THEN {"huge"}
     ELSE {t \o " " \o ByteUnits[k] : t \in Tenths(d[1], tenth, above, tie)}

\* milliseconds and nanoseconds given as integers below 2^31
Milli(ms) == SpanText(<<ms \div 86400000, ((ms \div 1000) % 86400), (ms % 1000) * 1000>>)
Hundredths(a, n, unit) ==        \* a + n/1000 with two decimals
  LET low == (n \div 10)
      T(x) == Dec(a + (x \div 100)) \o "." \o DecN((x % 100), 2) \o " " \o unit
  IN IF (n % 10) = 5 THEN {T(low), T(low + 1)} ELSE IF (n % 10) > 5 THEN {T(low + 1)} ELSE {T(low)}
Nano(ns) ==
  IF ns < 1000 THEN {Dec(ns) \o " nsec"}
  ELSE IF ns < 1000000 THEN Hundredths(ns \div 1000, (ns % 1000), "usec")
  ELSE IF ns < 1000000000 THEN Hundredths(ns \div 1000000, ((ns \div 1000) % 1000), "ms")
  ELSE {Milli(ns \div 1000000)}

\* access rights of a file: type letter, three times rwx with the set-user,
\* set-group and sticky bits shown in place of x, octal number behind
TypeLetter(fmt) == CASE fmt \in {0, 8} -> "-" [] fmt = 6 -> "b" [] fmt = 2 -> "c"
                     [] fmt = 4 -> "d" [] fmt = 1 -> "p" [] fmt = 10 -> "l"
                     [] fmt = 12 -> "s" [] OTHER -> "?"
RECURSIVE Oct(_)
Oct(n) == IF n < 8 THEN Digit[n + 1] ELSE Oct(n \div 8) \o Digit[(n % 8) + 1]
Rights(b) ==    \* b: 16 bits
  LET R(i, c) == IF b[i] = 1 THEN c ELSE "-"
      X(i, j, lower, upper) == IF b[j] = 1 THEN (IF b[i] = 1 THEN lower ELSE upper) ELSE R(i, "x")
  IN TypeLetter(Number(SubSeq(b, 1, 4)))
     \o R(8, "r") \o R(9, "w") \o X(10, 5, "s", "S")
     \o R(11, "r") \o R(12, "w") \o X(13, 6, "s", "S")
     \o R(14, "r") \o R(15, "w") \o X(16, 7, "t", "T")
     \o " (" \o Oct(Number(b)) \o ")"

Aligned(v, a) == CHOOSE x \in v..(v + a) : (x % a) = 0 /\ \A y \in v..(x - 1) : (y % a) # 0
=============================================================================
