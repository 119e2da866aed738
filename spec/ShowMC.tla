------------------------------- MODULE ShowMC -------------------------------
(***************************************************************************)
(* Texts grown one character at a time, and adapters put one after the     *)
(* other on a field of 4 bits: what is shown never has a control           *)
(* character or one outside the charset, two texts without backslash never *)
(* look the same, what has been cut is marked, and the outermost adapter   *)
(* with an answer decides.                                                 *)
(***************************************************************************)
EXTENDS Show
CONSTANTS MaxLen, MaxAd
VARIABLES text, ad, v

Alphabet == {0, 1, 10, 127, 34, 39, 49, 56, 97, 233, 8364}
Tab1 == <<[key |-> DecCodes(<<1, 0>>), text |-> <<116>>]>>
Tab2 == <<[key |-> DecCodes(<<1, 0>>), text |-> <<117>>], [key |-> DecCodes(<<1>>), text |-> <<118>>]>>
Adapters == {[t |-> "enum", how |-> "id", tab |-> Tab1, text |-> <<>>],
             [t |-> "enum", how |-> "half", tab |-> Tab2, text |-> <<>>],
             [t |-> "enum", how |-> "lookup", tab |-> Tab2, text |-> <<>>],
             [t |-> "hex", how |-> "", tab |-> <<>>, text |-> <<>>],
             [t |-> "const", how |-> "", tab |-> <<>>, text |-> <<99>>],
             [t |-> "fail", how |-> "", tab |-> <<>>, text |-> <<>>]}
Init == text = <<>> /\ ad = <<>> /\ v \in {<<0,0,0,1>>, <<0,0,1,0>>, <<0,1,0,0>>, <<1,1,1,1>>}
Next == /\ UNCHANGED v
        /\ \/ Len(text) < MaxLen /\ ad = <<>> /\ v = <<0,0,0,1>> /\ \E c \in Alphabet : text' = Append(text, c) /\ UNCHANGED ad
           \/ text = <<>> /\ Len(ad) < MaxAd /\ \E a \in Adapters : ad' = Append(ad, a) /\ UNCHANGED text
Spec == Init /\ [][Next]_<<text, ad, v>>

Clean(s, charset) == \A i \in 1..Len(s) : ~Control(s[i]) /\ s[i] <= TopCode(charset)
Charsets == {"ASCII", "latin-1", "UTF-8"}
NoControl == \A c \in Charsets : \A q \in {0, 34, 39} : \A b \in BOOLEAN : Clean(Printable(text, c, q, b), c)
\* a quote in the text never ends it
InQuotes == text # <<>> =>
   \A q \in {34, 39} :
      LET s == Printable(text, "ASCII", q, TRUE)
      IN /\ s[1] = q /\ s[Len(s)] = q
         /\ \A i \in 2..(Len(s) - 1) : s[i] = q => s[i - 1] = BS
\* readable texts are not touched
Readable == (\A i \in 1..Len(text) : text[i] \in {49, 56, 97, 233}) => Printable(text, "latin-1", 0, TRUE) = text
\* strip the last character: a different text
Distinct == \A c \in Alphabet : \A n \in 0..Len(text) :
               LET t == Append(SubSeq(text, 1, n), c)
               IN t # text => Printable(t, "ASCII", 0, TRUE) # Printable(text, "ASCII", 0, TRUE)
Marked == /\ Len(BytesText(text \o text \o text \o text \o text, TRUE)) > 0
          /\ \A n \in 0..5 :
               LET b == [i \in 1..(12 + n) |-> IF text = <<>> THEN 0 ELSE text[1] % 128]
                   s == BytesText(b, FALSE)
               IN (SubSeq(s, Len(s) - 5, Len(s) - 1) = More) = (Len(b) > MaxBytes)
F0 == [k |-> "bits", sg |-> FALSE, chars |-> <<>>, pat |-> <<>>, cls |-> <<>>, ad |-> ad,
       bits |-> v, bytes |-> <<>>]
Answers(a) == CASE a.t = "enum" -> a.how # "lookup" /\ Entry(a.tab, KeyBy(F0, a.how)) # 0
                [] OTHER -> TRUE
Outermost == LET I == {i \in 1..Len(ad) : Answers(ad[i])}
             IN IF I = {} THEN Display(F0) = DecCodes(v)
                ELSE LET m == CHOOSE i \in I : \A j \in I : j <= i
                     IN Display(F0) = Adapted(F0, <<ad[m]>>, 1).t
=============================================================================
