---------------------------- MODULE StreamsTrace ----------------------------
(***************************************************************************)
(* Recorded executions of the real streams against Streams.  State:        *)
(*   t     - the header (geometry and content) of the trace                *)
(*   p     - block cache of the pipe, meaningful while ~fuzzy              *)
(*   fuzzy - an operation with an unspecified pattern of block accesses    *)
(*           has been made: from then on only the guarantee "the W most    *)
(*           recent blocks are available" is demanded                      *)
(*   sz    - sizes reported after the previous event                       *)
(*   cl    - size observers: [h, ret]                                      *)
(*   vw    - file views: [h, pos]                                          *)
(***************************************************************************)
EXTENDS Streams, TraceKit

\* size a new stream announces: the declared one, cut at what is announced by
\* its parent
RECURSIVE Claim(_, _)
Claim(t, h) ==
  LET d == t.st[h] IN
  CASE d.k = "base" -> IF t.kind = "pipe" THEN Unknown ELSE 8 * t.n
    [] d.k = "sub"  -> LET pc == Claim(t, d.of) IN
                       IF pc = Unknown THEN d.size
                       ELSE IF d.size = Unknown THEN pc - d.off
                       ELSE Min2(d.size, pc - d.off)
    [] d.k = "concat" -> LET c == Claim(t, d.of2) IN
                         IF c = Unknown THEN Unknown ELSE Geo(t, d.of).T + c
    [] OTHER -> Unknown

SInit(t) == {[t |-> t, p |-> PipeInit, fuzzy |-> FALSE,
              sz |-> [h \in 1..Len(t.st) |-> Claim(t, h)], cl |-> <<>>, vw |-> <<>>]}

IsPipe(t) == t.kind \in {"pipe", "sized"}
NBlk(s, e) == CeilDiv(e.obs.raw, s.t.B)

\* the window of the base that stream h is, when h is the base or a
\* (sub-stream of a)* sub-stream of it; such reads are one read of the base
RECURSIVE Direct(_, _)
Direct(t, h) == t.st[h].k = "base" \/ (t.st[h].k = "sub" /\ Direct(t, t.st[h].of))

\* ends of nested windows, as far as known: a read past them never reaches
\* the base
RECURSIVE Within(_, _, _)
Within(s, h, end) ==
  LET d == s.t.st[h] IN
  IF d.k = "base" THEN TRUE
  ELSE (s.sz[h] = Unknown \/ end <= s.sz[h]) /\ Within(s, d.of, d.off + end)


\* effect of one read of bits [a, a+n) of stream h on the cache:
\* set of [ok, st] (ok = no needed block had been discarded)
Access(s, e, h, a, n) ==
  LET t == s.t
      o == Geo(t, h).org + a
      b == o \div 8
      len == CeilDiv((o % 8) + n, 8)
  IN IF ~IsPipe(t) THEN {[ok |-> TRUE, st |-> s]}
     ELSE IF s.fuzzy \/ ~Direct(t, h)
     THEN {[ok |-> TRUE, st |-> [s EXCEPT !.fuzzy = TRUE]]}
          \cup (IF ~Direct(t, h) \/ b \div t.B < NBlk(s, e) - t.W
                THEN {[ok |-> FALSE, st |-> [s EXCEPT !.fuzzy = TRUE]]} ELSE {})
     ELSE IF ~Within(s, h, a + n) \/ n = 0 THEN {[ok |-> TRUE, st |-> s]}
     ELSE LET r == PipeRead(s.p, t.n, t.B, t.W, b, len)
          IN {[ok |-> r.ok, st |-> [s EXCEPT !.p = r.p]]}

\* an operation which reads in its own way, starting at bit a
Fuzz(s, e, h, a) ==
  LET t == s.t
      b == (Geo(t, h).org + a) \div 8
      q == [s EXCEPT !.fuzzy = TRUE]
  IN IF ~IsPipe(t) THEN {[ok |-> TRUE, st |-> s]}
     ELSE {[ok |-> TRUE, st |-> q]} \cup
          (IF ~Direct(t, h) \/ b \div t.B < NBlk(s, e) - t.W
           THEN {[ok |-> FALSE, st |-> q]} ELSE {})

---------------------------------------------------------------------------
ResErr(e) == e.res.t = "err"
ResOk(e)  == e.res.t = "ok"

Read(s, e) ==
  LET t == s.t
      T == Geo(t, e.h).T
      Good == /\ ResOk(e) /\ ~e.res.miss /\ ReadOk(t, e.h, e.a, e.n)
              /\ e.res.shift = ReadShift(t, e.h, e.a)
              /\ e.res.data = ReadData(t, e.h, e.a, e.n)
      Partial == /\ ~ReadOk(t, e.h, e.a, e.n)
                 /\ \/ ResErr(e)
                    \/ /\ ResOk(e) /\ e.res.miss
                       /\ e.res.data = PrefixData(t, e.h, e.a)
                       /\ (e.res.data # <<>>) => e.res.shift = ReadShift(t, e.h, e.a)
      Null == e.n = 0 /\ ResOk(e) /\ ~e.res.miss /\ e.res.data = <<>>
  IN {r.st : r \in {x \in Access(s, e, e.h, e.a, e.n) :
                      Null \/ IF x.ok THEN Good \/ Partial ELSE ResErr(e)}}


ReadBytes(s, e) ==
  LET t == s.t
      al == ReadShift(t, e.h, e.a) = 0
      Good == /\ al /\ ResOk(e) /\ ReadOk(t, e.h, e.a, 8 * e.n)
              /\ e.res.data = ReadData(t, e.h, e.a, 8 * e.n)
      Bad  == (~al \/ ~ReadOk(t, e.h, e.a, 8 * e.n)) /\ ResErr(e)
      Null == e.n = 0 /\ (ResErr(e) => ~ReadOk(t, e.h, e.a, 0))
              /\ (ResOk(e) => e.res.data = <<>>)
  IN {r.st : r \in {x \in Access(s, e, e.h, e.a, 8 * e.n) :
                      IF e.n = 0 THEN Null \/ (~al /\ ResErr(e))
                      ELSE IF x.ok THEN Good \/ Bad ELSE ResErr(e)}}

\* integers: e.res.bits are the bits of the value, most significant first;
\* for signed values the two's complement representation
ReadBits(s, e) ==
  LET t  == s.t
      g  == Geo(t, e.h)
      \* middle endian works on whole 16-bit words of the stream
      a0 == IF e.en = "ME" THEN (e.a \div 16) * 16 ELSE e.a
      n0 == IF e.en = "ME" THEN CeilDiv((e.a % 16) + e.n, 16) * 16 ELSE e.n
      ok == ReadOk(t, e.h, a0, n0)
      Good == /\ ok /\ ResOk(e)
              /\ IF e.en = "ME"
                 THEN e.res.bits = BitsOf(Cut(Flat(t, e.h), g.org \div 8, CeilDiv(g.org + g.T, 8)),
                                          e.a, e.n, "ME")
                 ELSE e.res.bits = BitsOf(Flat(t, e.h), g.org + e.a, e.n, e.en)
      Bad == ~ok /\ ResErr(e)
  IN {r.st : r \in {x \in Access(s, e, e.h, a0, n0) :
                      IF x.ok THEN Good \/ Bad ELSE ResErr(e)}}

SizeGe(s, e) ==
  LET T == Geo(s.t, e.h).T
      truth == T >= e.n
      ok == /\ ResOk(e)
            /\ IF e.const THEN (e.res.b => truth) /\ (e.obs.sizes[e.h] = T /\ e.obs.final[e.h] => e.res.b = truth)
               ELSE e.res.b = truth
  IN IF ~(ok \/ (ResErr(e) /\ IsPipe(s.t) /\ ~Direct(s.t, e.h))) THEN {}
     ELSE IF ~IsPipe(s.t) \/ e.const THEN {s} ELSE {[s EXCEPT !.fuzzy = TRUE]}

Search(s, e) ==
  LET pos == FirstOcc(s.t, e.h, e)
      want == IF pos = Unknown \/ e.op = "search" THEN pos
              ELSE (pos - e.a) \div 8 + (IF e.incl THEN e.len ELSE 0)
  IN {r.st : r \in {x \in Fuzz(s, e, e.h, e.a) :
         IF e.a % 8 # 0 THEN ResErr(e)
         ELSE IF x.ok THEN ResOk(e) /\ e.res.v = want ELSE ResErr(e)}}

Ask(s, e) ==
  LET T == Geo(s.t, e.h).T IN
  IF ResOk(e) /\ e.res.v = e.obs.sizes[e.h]
  THEN {[s EXCEPT !.cl = Append(@, [h |-> e.h, ret |-> e.res.v])]} ELSE {}

FOpen(s, e) == IF ResOk(e) THEN {[s EXCEPT !.vw = Append(@, [h |-> e.h, pos |-> 0])]} ELSE {}

\* A position which would be negative is refused, or stands for the start
FSeek(s, e) ==
  LET v  == s.vw[e.v]
      T  == Geo(s.t, v.h).T \div 8
      np == CASE e.w = 0 -> e.p [] e.w = 1 -> v.pos + e.p [] e.w = 2 -> T + e.p
  IN IF np >= 0 THEN (IF ResOk(e) THEN {[s EXCEPT !.vw[e.v].pos = np]} ELSE {})
     ELSE IF ~ResOk(e) THEN {s}
     ELSE IF e.w = 0 THEN {}
     ELSE {[s EXCEPT !.vw[e.v].pos = 0], [s EXCEPT !.vw[e.v].pos = np]}

FTell(s, e) == LET v == s.vw[e.v] IN
  IF ResOk(e) /\ e.res.v = Max2(0, v.pos)
  THEN {[s EXCEPT !.vw[e.v].pos = Max2(0, @), !.fuzzy = IsPipe(s.t)]} ELSE {}

FRead(s, e) ==
  LET v   == s.vw[e.v]
      g   == Geo(s.t, v.h)
      pos == Max2(0, v.pos)
      T   == g.T \div 8
      hi  == IF e.n < 0 THEN T ELSE Min2(T, pos + e.n)
      o   == g.org \div 8
      Good == ResOk(e) /\ e.res.data = Slice(s.t, v.h, o + pos, o + hi)
      np  == IF hi > pos THEN hi ELSE pos
  IN {IF r.ok THEN [r.st EXCEPT !.vw[e.v].pos = np] ELSE r.st :
        r \in {x \in Fuzz(s, e, v.h, 8 * pos) : IF x.ok THEN Good ELSE ResErr(e)}}

Do(s, e) ==
  CASE e.op = "read" -> Read(s, e)
    [] e.op = "readBytes" -> ReadBytes(s, e)
    [] e.op = "readBits" -> ReadBits(s, e)
    [] e.op = "sizeGe" -> SizeGe(s, e)
    [] e.op \in {"search", "searchLen"} -> Search(s, e)
    [] e.op = "ask" -> Ask(s, e)
    [] e.op = "fopen" -> FOpen(s, e)
    [] e.op = "fseek" -> FSeek(s, e)
    [] e.op = "ftell" -> FTell(s, e)
    [] e.op = "fread" -> FRead(s, e)
    [] e.op = "nop" -> {s}

---------------------------------------------------------------------------
(* What the sizes and the observers show after the event e (S02).          *)
(* obs.sizes[h] reported size (bits) or Unknown; obs.eof: the source has   *)
(* signalled its end; obs.notif[c]: values observer c has been given.      *)
RECURSIVE Final(_, _, _)
Final(t, e, h) ==
  LET s == t.st[h] IN
  CASE s.k = "base" -> t.kind # "pipe" \/ e.obs.eof
    [] s.k = "sub" -> Final(t, e, s.of)
    [] s.k = "concat" -> Final(t, e, s.of) /\ Final(t, e, s.of2)
    [] s.k = "frag" -> e.obs.sizes[h] # Unknown

PastEnd(t, e, h) ==
  \/ e.op = "read" /\ e.h = h /\ e.n > 0 /\ e.a + e.n > Geo(t, h).T
  \/ e.op = "sizeGe" /\ e.h = h /\ ~e.const /\ e.n > Geo(t, h).T

SizeOk(s, e, h) ==
  LET t == s.t
      st == t.st[h]
      T == Geo(t, h).T
      sz == e.obs.sizes[h]
  IN /\ CASE st.k = "base" -> sz = (IF Final(t, e, h) THEN T ELSE Unknown)
          [] st.k \in {"sub", "concat"} -> sz = (IF Final(t, e, h) THEN T ELSE s.sz[h])
          [] st.k = "frag" -> /\ sz \in {Unknown, T}
                              /\ PastEnd(t, e, h) => sz = T
                              /\ s.sz[h] # Unknown => sz = T
     /\ e.obs.final[h] => sz = T

ClientOk(s, e, c) ==
  LET cl == s.cl[c]
      T  == Geo(s.t, cl.h).T
      nt == e.obs.notif[c]
      fin == Final(s.t, e, cl.h)
      belief == IF nt = <<>> THEN cl.ret ELSE nt[Len(nt)]
  IN /\ Len(nt) <= 1
     /\ nt # <<>> => fin
     /\ cl.ret = Unknown /\ fin => Len(nt) = 1
     /\ fin => belief = T

ObsOk(s, e) == /\ \A h \in 1..Len(s.t.st) : SizeOk(s, e, h)
               /\ \A c \in 1..Len(s.cl) : ClientOk(s, e, c)
               \* while the accesses are fully known the cache model is exact
               /\ IsPipe(s.t) /\ ~s.fuzzy /\ e.op # "nop"
                    => s.p.n = NBlk(s, e) /\ (s.t.kind = "pipe" => s.p.eof = e.obs.eof)

SStep(s, e) == {[r EXCEPT !.sz = e.obs.sizes] :
                  r \in {x \in Do(s, e) : ObsOk(x, e)}}

\* diagnostics
SAllow(s, e) ==
  LET h == IF e.op \in {"fseek", "ftell", "fread"} THEN s.vw[e.v].h
           ELSE IF e.op = "nop" THEN 1 ELSE e.h
  IN [geo |-> Geo(s.t, h), fuzzy |-> s.fuzzy,
      answered |-> Do(s, e) # {},
      sizes |-> [x \in 1..Len(s.t.st) |-> SizeOk(s, e, x)],
      want |-> CASE e.op = "read" /\ ReadOk(s.t, h, e.a, e.n) -> ReadData(s.t, h, e.a, e.n)
                 [] e.op = "readBytes" /\ ReadOk(s.t, h, e.a, 8 * e.n) -> ReadData(s.t, h, e.a, 8 * e.n)
                 [] e.op \in {"search", "searchLen"} -> <<FirstOcc(s.t, h, e)>>
                 [] OTHER -> <<>>]

CacheInv == \A s \in S : ~s.fuzzy /\ IsPipe(s.t) =>
              /\ ToSet(s.p.lru) = s.p.first..(s.p.n - 1)
              /\ s.p.n - s.p.first >= Min2(s.p.n, s.t.W)
=============================================================================
