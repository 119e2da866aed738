------------------------------ MODULE OutTrace ------------------------------
(* Recorded executions of hachoir output streams against OutStream.        *)
(* Header: src (bytes of the input copied from).                           *)
EXTENDS OutStream, TraceKit

OInit(t) == {[t |-> t, o |-> OutInit]}
Ok(e) == e.res = "ok"
Refused(e) == e.res # "ok"

Do(s, e) ==
  LET o == s.o
      pending == o.pend # <<>>
      Full == 8 * Len(s.t.src)
  IN
  CASE e.op = "nop" -> {o}
    [] e.op \in {"writeBits", "writeBit"} ->
         IF e.fits THEN (IF Ok(e) THEN {PutBits(o, e.v, e.en)} ELSE {})
         ELSE (IF Refused(e) THEN {o} ELSE {})
    [] e.op = "writeBytes" ->
         IF pending /\ e.d # <<>> THEN (IF Refused(e) THEN {o} ELSE {})
         ELSE IF pending THEN {o}
         ELSE IF Ok(e) THEN {PutBytes(o, e.d)} ELSE {}
    [] e.op = "writeInteger" ->
         IF pending \/ ~Fits(e.neg, e.mag, 8 * e.n, e.signed)
         THEN (IF Refused(e) THEN {o} ELSE {})
         ELSE IF Ok(e) THEN {PutInt(o, Encode(e.neg, e.mag, 8 * e.n), e.en)} ELSE {}
    [] e.op = "copyBytes" ->
         IF (e.a % 8) # 0 \/ (pending /\ e.n > 0) THEN (IF Refused(e) THEN {o} ELSE {})
         ELSE IF e.a + 8 * e.n <= Full
         THEN (IF Ok(e) THEN {PutBytes(o, Cut(s.t.src, e.a \div 8, e.a \div 8 + e.n))} ELSE {})
         ELSE \* input ends before: what is there may have been copied
              IF Ok(e) THEN {}
              ELSE {PutBytes(o, Cut(s.t.src, e.a \div 8, e.a \div 8 + k)) :
                      k \in 0..Max2(0, Len(s.t.src) - e.a \div 8)}
    [] e.op = "copyBits" ->
         LET bytewise == (e.a % 8) = 0 /\ (e.n % 8) = 0 /\ ~pending IN
         IF e.a + e.n <= Full
         THEN IF Ok(e) THEN {PutBits(o, BitsOf(s.t.src, e.a, e.n, e.en), e.en)}
              ELSE {}
         ELSE IF Ok(e) THEN {}
         ELSE IF ~bytewise
         THEN {PutBits(o, BitsOf(s.t.src, e.a, k, e.en), e.en) : k \in 0..Max2(0, Full - e.a)}
         ELSE {PutBytes(o, Cut(s.t.src, e.a \div 8, e.a \div 8 + k)) :
                      k \in 0..Max2(0, Len(s.t.src) - e.a \div 8)}
    [] e.op = "readBytes" ->
         LET a == e.a \div 8
             d == Cut(o.out, Min2(a, Len(o.out)), Min2(a + e.n, Len(o.out)))
         IN IF Ok(e) THEN (IF e.d = d /\ e.readable THEN {o} ELSE {})
            ELSE IF ~e.readable THEN {o} ELSE {}

OStep(s, e) == {[s EXCEPT !.o = x] : x \in {y \in Do(s, e) : y.out = e.out}}
OAllow(s, e) == [o |-> s.o, want |-> Do(s, e)]
=============================================================================
