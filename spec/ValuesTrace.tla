----------------------------- MODULE ValuesTrace ----------------------------
(***************************************************************************)
(* Date, duration and float fields of recorded parses, and the texts made  *)
(* of numbers, against Values.  Header: src (bytes), flds = <<[k, a, en,   *)
(* w]>> the declared fields: kind, bit address, byte order, width.         *)
(***************************************************************************)
EXTENDS Values, TraceKit
St == INSTANCE Streams

H == Traces[tid].hdr
VInit(t) == {0}
F(e) == H.flds[e.i]
Bits(f) == St!BitsOf(H.src, f.a, f.w, f.en)

Part(f, at, w) == Number(St!BitsOf(H.src, f.a + at, w, f.en))
Dos(f) == IF f.k = "TimeDateMSDOS32"
          THEN [second |-> Part(f, 0, 5), minute |-> Part(f, 5, 6), hour |-> Part(f, 11, 5),
                day |-> Part(f, 16, 5), month |-> Part(f, 21, 4), year |-> Part(f, 25, 7)]
          ELSE [second |-> Part(f, 16, 5), minute |-> Part(f, 21, 6), hour |-> Part(f, 27, 5),
                day |-> Part(f, 0, 5), month |-> Part(f, 5, 4), year |-> Part(f, 9, 7)]
Ordered(f) == IF f.en = "LE" THEN FlattenSeq(Reverse([i \in 1..(f.w \div 8) |->
                     St!BitsOf(H.src, f.a + (8 * (i - 1)), 8, "BE")]))
              ELSE St!BitsOf(H.src, f.a, f.w, "BE")

Value(e) ==
  LET f == F(e)
  IN CASE f.k \in Kinds -> e.v \in TimeValues(f.k, Bits(f))
       [] f.k \in {"TimeDateMSDOS32", "DateTimeMSDOS32"} -> e.v = DosValue(Dos(f))
       [] OTHER -> e.v \in Floats(f.w, Ordered(f))
\* e.v: the value shown before
Display(e) ==
  LET f == F(e)
  IN CASE f.k \in Kinds -> \E v \in TimeValues(f.k, Bits(f)) : e.text = TimeText(f.k, v)
       [] f.k \in {"TimeDateMSDOS32", "DateTimeMSDOS32"} -> e.text = TimeText(f.k, DosValue(Dos(f)))
       [] OTHER -> e.v \in Floats(f.w, Ordered(f))   \* the text read back
Raw(e) == e.text = DecBits(Bits(F(e)))
Truth(e) == e.b = ~Zeros(Bits(F(e)))

Text(e) ==
  CASE e.fn = "humanFilesize" -> e.text \in FileSize(e.bits)
    [] e.fn = "humanBitSize" -> e.text \in Kilo(DigitsOf(e.bits), BitUnits, " Tbit")
    [] e.fn = "humanBitRate" -> e.text \in {t \o "/sec" : t \in Kilo(DigitsOf(e.bits), BitUnits, " Tbit")}
    [] e.fn = "humanFrequency" -> e.text \in Kilo(DigitsOf(e.bits), HzUnits, ".0 THz")
    [] e.fn = "humanDuration" -> e.text = Milli(e.n)
    [] e.fn = "humanDurationNanosec" -> e.text \in Nano(e.n)
    [] e.fn = "humanUnixAttributes" -> e.text = Rights(e.bits)
    [] e.fn = "alignValue" -> e.n2 = Aligned(e.n, e.a)
    [] e.fn = "paddingSize" -> e.n2 = Aligned(e.n, e.a) - e.n
    [] e.fn = "humanDatetime" -> e.text = (IF e.a = 1 THEN DateText(e.v) ELSE LongDateText(e.v))
    [] OTHER -> \* a converted number: e.v the value or <<>> when refused
         e.v \in TimeValues(e.fn, e.bits)

Fine(e) ==
  CASE e.op = "value" -> Value(e)
    [] e.op = "display" -> Display(e)
    [] e.op = "raw" -> Raw(e)
    [] e.op = "bool" -> Truth(e)
    [] e.op = "place" -> e.a = F(e).a /\ e.w = F(e).w
    [] e.op = "text" -> Text(e)
    [] OTHER -> FALSE
VStep(s, e) == IF Fine(e) THEN {s} ELSE {}
VAllow(s, e) ==
  IF e.op = "text" THEN [v |-> {}, t |-> {}]
  ELSE LET f == F(e)
       IN [v |-> CASE f.k \in Kinds -> TimeValues(f.k, Bits(f))
                   [] f.k \in {"TimeDateMSDOS32", "DateTimeMSDOS32"} -> {DosValue(Dos(f))}
                   [] OTHER -> {<<r.k, r.neg, r.e, r.f>> : r \in Floats(f.w, Ordered(f))},
           t |-> {DecBits(Bits(f))}]
=============================================================================
