-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* How a field is shown: value, display, raw display, description          *)
(* (hachoir/field/field.py, byte_field.py, bit_field.py, padding.py,       *)
(* string_field.py, character.py, enum.py, hachoir/core/text_handler.py,   *)
(* makePrintable() of hachoir/core/tools.py).  Texts are sequences of      *)
(* character codes.                                                        *)
(***************************************************************************)
EXTENDS Values
Str == INSTANCE Streams

HexDigit == <<48,49,50,51,52,53,54,55,56,57,97,98,99,100,101,102>>
RECURSIVE HexN(_, _)
HexN(n, k) == IF k = 0 THEN <<>> ELSE Append(HexN(n \div 16, k - 1), HexDigit[(n % 16) + 1])
DecCodes(bits) == LET d == DigitsOf(bits) IN [i \in 1..Len(d) |-> 48 + d[i]]
RECURSIVE Nat10(_)
Nat10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat10(n \div 10), 48 + (n % 10))

BS == 92
Control(c) == c < 32 \/ c = 127
Escape(c) == CASE c = 10 -> <<BS, 110>> [] c = 13 -> <<BS, 114>> [] c = 9 -> <<BS, 116>>
               [] c = 7 -> <<BS, 97>> [] c = 8 -> <<BS, 98>>
               [] OTHER -> <<BS, 120>> \o HexN(c, 2)
\* a character the charset does not have
Foreign(c) == IF c < 256 THEN <<BS, 120>> \o HexN(c, 2)
              ELSE IF c < 65536 THEN <<BS, 117>> \o HexN(c, 4)
              ELSE <<BS, 85>> \o HexN(c \div 65536, 4) \o HexN((c % 65536), 4)
TopCode(charset) == IF charset = "ASCII" THEN 127 ELSE IF charset = "latin-1" THEN 255 ELSE 1114111

Escaped(s) == FlattenSeq([i \in 1..Len(s) |-> IF Control(s[i]) THEN Escape(s[i]) ELSE <<s[i]>>])
Encoded(s, charset) == FlattenSeq([i \in 1..Len(s) |->
                           IF s[i] > TopCode(charset) THEN Foreign(s[i]) ELSE <<s[i]>>])
Octal(c) == c \in 48..55
\* \x0N is written \N unless an octal digit follows
RECURSIVE Short(_)
Short(s) ==
  IF Len(s) < 4 THEN s
  ELSE IF s[1] = BS /\ s[2] = 120 /\ s[3] = 48 /\ Octal(s[4])
          /\ (Len(s) = 4 \/ ~Octal(s[5]))
       THEN <<BS, s[4]>> \o Short(SubSeq(s, 5, Len(s)))
       ELSE <<s[1]>> \o Short(Tail(s))
Protect(s, q) == FlattenSeq([i \in 1..Len(s) |-> IF s[i] = q THEN <<BS, q>> ELSE <<s[i]>>])
Empty == <<40, 101, 109, 112, 116, 121, 41>>
More == <<40, 46, 46, 46, 41>>
\* q: code of the quote or 0
Printable(s, charset, q, smart) ==
  LET t == Encoded(IF s = <<>> THEN (IF q = 0 THEN <<>> ELSE Empty)
                   ELSE IF q = 0 THEN Escaped(s)
                   ELSE <<q>> \o Protect(Escaped(s), q) \o <<q>>, charset)
  IN IF smart THEN Short(t) ELSE t
ReadableText(s) == Short(Escaped(s))

\* newlines of all systems become one, several one after the other too
RECURSIVE NoCR(_)
NoCR(s) == IF s = <<>> THEN <<>>
           ELSE IF s[1] = 13 THEN <<10>> \o NoCR(IF Len(s) > 1 /\ s[2] = 10 THEN SubSeq(s, 3, Len(s)) ELSE Tail(s))
           ELSE <<s[1]>> \o NoCR(Tail(s))
Newlines(s) == LET t == NoCR(s)
               IN FlattenSeq([i \in 1..Len(t) |-> IF t[i] = 10 /\ i > 1 /\ t[i - 1] = 10 THEN <<>> ELSE <<t[i]>>])

---------------------------------------------------------------------------
MaxChars == 40
MaxBytes == 14
MaxBits == 256
Quote == 34
First(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s
Quoted(s) == <<Quote>> \o s \o <<Quote>>

BytesText(b, human) ==
  LET t == Printable(First(b, MaxBytes), "ASCII", 0, TRUE)
      u == IF Len(b) > MaxBytes THEN t \o More ELSE t
  IN IF human THEN Printable(u, "latin-1", Quote, TRUE) ELSE Quoted(u)

\* the text of a string; an unknown charset is guessed
StringText(chars) ==
  LET v == Printable(chars, "latin-1", 0, TRUE)
      w == IF Len(v) > MaxChars THEN First(v, MaxChars) \o More ELSE v
  IN IF w = <<>> THEN Empty ELSE Quoted(Protect(w, Quote))
StringRaw(raw) ==
  LET v == Printable(raw, "ASCII", 0, TRUE)
      w == IF Len(v) > MaxChars THEN First(v, MaxChars) \o More ELSE v
  IN Printable(w, "ASCII", Quote, TRUE)

Flip(bits) == [i \in 1..Len(bits) |-> 1 - bits[i]]
RECURSIVE Inc(_, _)
Inc(b, i) == IF i = 0 THEN b ELSE IF b[i] = 0 THEN [b EXCEPT ![i] = 1] ELSE Inc([b EXCEPT ![i] = 0], i - 1)
SignedText(bits) == IF bits[1] = 1 THEN <<45>> \o DecCodes(Inc(Flip(bits), Len(bits))) ELSE DecCodes(bits)

Repeats(b, p) == (Len(b) % Len(p)) = 0 /\ \A i \in 1..Len(b) : b[i] = p[((i - 1) % Len(p)) + 1]
True4 == <<84, 114, 117, 101>>
False5 == <<70, 97, 108, 115, 101>>
LtNull == <<60, 110, 117, 108, 108, 62>>
PadText(p) == <<60, 112, 97, 100, 100, 105, 110, 103, 32, 112, 97, 116, 116, 101, 114, 110, 61>> \o p \o <<62>>
TooLong(name, n) == <<60>> \o name \o <<32, 115, 105, 122, 101, 61>> \o Nat10(n) \o <<62>>

\* a field f = [k, sg, bits, head, bytes, chars, pat, cls]:
\* head are the first 128 bits stored
BitsText(f) == IF Len(f.bits) < MaxBits THEN DecCodes(f.bits) ELSE TooLong(f.cls, Len(f.bits))
\* the value in the form in which tables know it
Key(f) == CASE f.k = "int" -> (IF f.sg THEN SignedText(f.bits) ELSE DecCodes(f.bits))
            [] f.k \in {"bits", "nullbits", "padbits"} -> DecCodes(f.bits)
            [] f.k = "bit" -> (IF f.bits = <<1>> THEN True4 ELSE False5)
            [] f.k = "char" -> <<Number(f.bits)>>
            [] f.k = "string" -> f.chars
            [] OTHER -> f.bytes
Base(f) == CASE f.k = "int" -> Key(f)
             [] f.k = "bits" -> BitsText(f)
             [] f.k = "bit" -> Key(f)
             [] f.k = "char" -> Printable(Key(f), "ASCII", 39, TRUE)
             [] f.k = "string" -> StringText(f.chars)
             [] f.k = "bytes" -> BytesText(f.bytes, TRUE)
             [] f.k = "nullbits" -> (IF Zeros(f.head) THEN LtNull ELSE BitsText(f))
             [] f.k = "padbits" -> (IF f.pat = <<0>> /\ Zeros(f.head)
                                    THEN PadText(<<48>>) ELSE BitsText(f))
             [] f.k = "nullbytes" -> (IF Repeats(f.bytes, <<0>>) THEN LtNull ELSE BytesText(f.bytes, TRUE))
             [] f.k = "padbytes" -> (IF f.pat # <<>> /\ Repeats(f.bytes, f.pat)
                                     THEN PadText(Printable(f.pat, "ASCII", 39, TRUE))
                                     ELSE BytesText(f.bytes, TRUE))
RawText(f) == CASE f.k = "int" -> Key(f)
                [] f.k \in {"bits", "nullbits", "padbits"} -> BitsText(f)
                [] f.k = "bit" -> <<48 + f.bits[1]>>
                [] f.k = "char" -> DecCodes(f.bits)
                [] f.k = "string" -> StringRaw(f.bytes)
                [] f.k = "bytes" -> BytesText(f.bytes, FALSE)
                [] OTHER -> BytesText(f.bytes, TRUE)

---------------------------------------------------------------------------
(* Adapters put on a field, the last one outermost.  Each makes the        *)
(* display; a table without an entry leaves it to what was there before.   *)
Fails == [ok |-> FALSE, t |-> <<>>]
Says(t) == [ok |-> TRUE, t |-> t]
Hex(f) == <<48, 120>> \o (LET n == Len(f.bits)
                              pad == [i \in 1..((4 - (n % 4)) % 4) |-> 0] \o f.bits
                          IN [i \in 1..(Len(pad) \div 4) |-> HexDigit[Number(SubSeq(pad, (4 * i) - 3, 4 * i)) + 1]])
Entry(tab, key) == LET I == {i \in 1..Len(tab) : tab[i].key = key}
                   IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
KeyBy(f, how) == CASE how = "half" -> DecCodes(SubSeq(f.bits, 1, Len(f.bits) - 1) \o <<>>)
                   [] how = "low" -> DecCodes(IF Len(f.bits) > 4 THEN SubSeq(f.bits, Len(f.bits) - 3, Len(f.bits)) ELSE f.bits)
                   [] OTHER -> Key(f)
RECURSIVE Adapted(_, _, _)
Adapted(f, ad, j) ==
  IF j = 0 THEN Says(Base(f))
  ELSE LET a == ad[j]
       IN CASE a.t = "enum" ->
                 IF a.how = "fail" THEN Fails
                 ELSE LET i == IF a.how = "lookup" THEN 0 ELSE Entry(a.tab, KeyBy(f, a.how))
                      IN IF i = 0 THEN Adapted(f, ad, j - 1) ELSE Says(a.tab[i].text)
            [] a.t = "hex" -> Says(Hex(f))
            [] a.t = "const" -> Says(a.text)
            [] a.t = "key" -> Says(<<91>> \o Key(f) \o <<93>>)
            [] a.t = "fail" -> Fails
Display(f) == Adapted(f, f.ad, Len(f.ad)).t
=============================================================================
