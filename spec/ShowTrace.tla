----------------------------- MODULE ShowTrace ------------------------------
(***************************************************************************)
(* Recorded questions to fields (in any order, repeated) and recorded      *)
(* calls of the text functions, against Show.  Header: src, flds.          *)
(***************************************************************************)
EXTENDS Show, TraceKit
H == Traces[tid].hdr
\* the answers so far: <<field, question, answer>>
ShInit(t) == {{}}

Fld(i) == LET f == H.flds[i]
          IN [k |-> f.k, sg |-> f.sg, chars |-> f.chars, pat |-> f.pat,
              cls |-> f.cls, ad |-> f.ad,
              bits |-> IF f.k \in {"int", "bits", "bit", "char", "nullbits", "padbits"}
                       THEN Str!BitsOf(H.src, f.a, f.w, H.en) ELSE <<>>,
              head |-> IF f.k \in {"nullbits", "padbits"}
                       THEN Str!BitsOf(H.src, f.a, IF f.w > 128 THEN 128 ELSE f.w, H.en) ELSE <<>>,
              bytes |-> IF f.k \in {"bytes", "nullbytes", "padbytes", "string"}
                        THEN SubSeq(H.src, (f.a \div 8) + 1, (f.a + f.w) \div 8) ELSE <<>>]
Answer(e) ==
  LET f == H.flds[e.i]
  IN IF f.k = "broken"
     THEN CASE e.op = "value" -> e.none
            [] OTHER -> TRUE
     ELSE CASE e.op = "value" -> ~e.none /\ e.text = Key(Fld(e.i))
            [] e.op = "display" -> e.text = Display(Fld(e.i))
            [] e.op = "str" -> e.text = Display(Fld(e.i))
            [] e.op = "raw" -> e.text = RawText(Fld(e.i))
            [] e.op = "has" -> e.b
            [] e.op = "desc" -> e.text = (CASE f.desc.t = "given" -> f.desc.text
                                            [] f.desc.t = "made" -> Printable(f.desc.text, "latin-1", 0, TRUE)
                                            [] OTHER -> <<>>)
            [] e.op = "place" -> e.a = f.a /\ e.w = f.w
            [] OTHER -> FALSE
Call(e) ==
  CASE e.fn = "makePrintable" -> e.text = Printable(e.in, e.cs, e.q, e.smart)
    [] e.fn = "makeUnicode" -> e.text = ReadableText(e.in)
    [] e.fn = "normalizeNewline" -> e.text = Newlines(e.in)
    [] OTHER -> FALSE
ShStep(s, e) ==
  IF e.op = "call" THEN (IF Call(e) THEN {s} ELSE {})
  ELSE LET q == <<e.i, e.op>>
           seen == {x \in s : x[1] = q}
       IN IF e.grew = 0 /\ (\A x \in seen : x[2] = e.text) /\ Answer(e)
          THEN {s \cup {<<q, e.text>>}} ELSE {}
ShAllow(s, e) ==
  IF e.op = "call" THEN <<>>
  ELSE IF H.flds[e.i].k = "broken" THEN <<>>
  ELSE IF e.op = "raw" THEN RawText(Fld(e.i)) ELSE IF e.op = "value" THEN Key(Fld(e.i)) ELSE Display(Fld(e.i))
=============================================================================
