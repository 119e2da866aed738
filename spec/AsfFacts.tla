----------------------------- MODULE AsfFacts -----------------------------
(***************************************************************************)
(* ASF documents (wma, wmv): a header of objects, each with a GUID and a     *)
(* size: properties of the file, streams, their bit rates (by stream         *)
(* number, in any order), descriptions.                                      *)
(***************************************************************************)
EXTENDS OtherFacts

AsfFile == <<161, 220, 171, 140, 71, 169, 207, 17, 142, 228, 0, 192, 12, 32, 83, 101>>
AsfHeader == <<48, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108>>
AsfHdrExt == <<181, 3, 191, 95, 46, 169, 207, 17, 142, 227, 0, 192, 12, 32, 83, 101>>
AsfCodecs == <<64, 82, 209, 134, 29, 49, 208, 17, 163, 164, 0, 160, 201, 3, 72, 246>>
AsfData == <<54, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108>>
AsfStream == <<145, 7, 220, 183, 183, 169, 207, 17, 142, 230, 0, 192, 12, 32, 83, 101>>
AsfRates == <<206, 117, 248, 123, 141, 70, 209, 17, 141, 130, 0, 96, 151, 201, 162, 178>>
AsfExt == <<64, 164, 208, 210, 7, 227, 210, 17, 151, 240, 0, 160, 201, 94, 168, 80>>
AsfMeta == <<51, 38, 178, 117, 142, 102, 207, 17, 166, 217, 0, 170, 0, 98, 206, 108>>
AsfVideoT == <<192, 239, 25, 188, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>>
AsfAudioT == <<64, 158, 105, 248, 77, 91, 207, 17, 168, 253, 0, 128, 95, 92, 68, 43>>

AsfObj(guid, data) == guid \o L64(24 + Len(data)) \o data
Wide(b) == Utf16(b) \o <<0, 0>>
WideOr(w) == IF w = <<>> THEN <<>> ELSE Wide(w[1].b)
Win1 == <<0, 128, 255, 68, 209, 56, 193, 1>>
AsfCodec(s) == CASE s.kind = "audio" /\ s.c = 353 -> "Windows Media Audio V7 / V8 / V9" [] s.kind = "audio" -> "MPEG Layer 3"
                 [] s.c = 49 -> "Windows Media Video V7" [] OTHER -> "Windows Media Video V9"
AsfSpecific(s) ==
  IF s.kind = "audio" THEN L16(s.c) \o L16(s.x) \o L32(s.y) \o L32(9999) \o L16(77) \o L16(16) \o L16(3) \o <<1, 2, 3>>
  ELSE L32(s.x) \o L32(s.y) \o <<2>> \o L16(40) \o L32(40) \o L32(s.x) \o L32(s.y) \o L16(1) \o L16(24) \o <<87, 77, 86, s.c>> \o Zeros(20)
AsfStreamObj(s, nb) ==
  LET x == AsfSpecific(s)
  IN AsfObj(AsfStream, (IF s.kind = "audio" THEN AsfAudioT ELSE AsfVideoT) \o Fill(16, 8) \o Zeros(8) \o L32(Len(x)) \o L32(4) \o L16(nb) \o Zeros(4) \o x \o Fill(4, 6))
DescName(k) == CASE k = "album" -> <<87, 77, 47, 65, 108, 98, 117, 109, 84, 105, 116, 108, 101>>
                 [] k = "author" -> <<87, 77, 47, 65, 108, 98, 117, 109, 65, 114, 116, 105, 115, 116>>
                 [] k = "track_number" -> <<87, 77, 47, 84, 114, 97, 99, 107, 78, 117, 109, 98, 101, 114>>
                 [] k = "producer" -> <<87, 77, 47, 69, 110, 99, 111, 100, 101, 114>>
                 [] OTHER -> <<83, 108, 97, 110, 116>>
\* texts, bytes (which say nothing) and numbers (32 or 64 bits)
AsfDesc(d) == LET v == IF d[3] = 0 THEN Wide(d[2].b) ELSE IF d[3] = 1 THEN <<65, 0, 66, 0>> ELSE IF d[3] = 3 THEN L32(7) ELSE L64(7)
              IN L16(2 * Len(DescName(d[1])) + 2) \o Wide(DescName(d[1])) \o L16(d[3]) \o L16(Len(v)) \o v
Asf(p) ==
  LET n == Len(p.streams)
      s(i) == p.streams[i]
      \* the number of a stream
      nb(i) == IF p.gap THEN (2 * i) + 1 ELSE i
      fileProp == AsfObj(AsfFile, Fill(16, 4) \o L64(100000) \o Win1 \o L64(10) \o L64((p.ms + 1500) * 10000) \o L64(p.ms * 10000) \o L64(1500)
                                  \o L32(IF p.seek THEN 2 ELSE 0) \o L32(1400) \o L32(1400) \o L32(p.max))
      ext == AsfObj(AsfExt, L16(Len(p.descs)) \o Cat([i \in 1..Len(p.descs) |-> AsfDesc(p.descs[i])]))
      rate(i) == L16(nb(i)) \o L32(s(i).rate)
      rates == AsfObj(AsfRates, L16(n) \o Cat([i \in 1..n |-> rate(IF p.back THEN (n + 1) - i ELSE i)]))
      said(i) == p.said[i]
      meta == AsfObj(AsfMeta, Cat([i \in 1..5 |-> L16(Len(WideOr(said(i))))]) \o Cat([i \in 1..5 |-> WideOr(said(i))]))
      hdrext == AsfObj(AsfHdrExt, Fill(16, 1) \o L16(6) \o L32(5) \o Fill(5, 0))
      codecs == AsfObj(AsfCodecs, Fill(16, 2) \o L32(1) \o L16(2) \o L16(2) \o Utf16(<<120, 121>>) \o L16(0) \o L16(2) \o <<97, 1>>)
      streams == [i \in 1..n |-> Slot("stream" \o Num(i), AsfStreamObj(s(i), nb(i)))]
      objs == (IF p.late THEN <<Slot("meta", meta), Slot("rates", rates)>> \o streams \o <<Slot("file", fileProp), Slot("ext", ext)>>
               ELSE <<Slot("file", fileProp), Slot("hdrext", hdrext), Slot("codecs", codecs), Slot("ext", ext)>> \o streams \o <<Slot("rates", rates), Slot("meta", meta)>>)
      G(i) == s(i).kind \o "[" \o Num(Cardinality({j \in 1..i : s(j).kind = s(i).kind})) \o "]"
      at(i) == "stream" \o Num(i)
      metaKey(i) == CASE i = 1 -> "title" [] i = 2 -> "author" [] OTHER -> "copyright"
  IN [fmt |-> p.fmt,
      slots |-> <<Slot("top", AsfHeader \o L64(30 + Size(objs)) \o L32(Len(objs)) \o <<1, 2>>)>> \o objs
               \o <<Slot("data", AsfObj(AsfData, Fill(16, 4) \o L64(1) \o <<1, 1>> \o Fill(30, 130)))>>,
      facts |-> {Fact("creation_date", "2001-09-09 01:46:40", "file"), Fact("duration", Ms(p.ms), "file"), Fact("bit_rate", Num(p.max), "file")}
                \cup When(p.seek, {Fact("comment", "Is seekable", "file")})
                \cup {Fact(metaKey(i), said(i)[1].s, "meta") : i \in {i \in 1..3 : said(i) # <<>>}}
                \cup {Fact(IF d[1] = "other" THEN "comment" ELSE d[1], (IF d[1] = "other" THEN "Slant=" ELSE "") \o (IF d[3] = 0 THEN d[2].s ELSE "7"), "ext")
                        : d \in {d \in ToSet(p.descs) : d[3] # 1}}
                \cup UNION {{InGroup(G(i), 0, "compression", AsfCodec(s(i)), at(i)), InGroup(G(i), 0, "bit_rate", Num(s(i).rate), IF p.late THEN at(i) ELSE "rates")}
                            \cup (IF s(i).kind = "audio" THEN {InGroup(G(i), 0, "nb_channel", Num(s(i).x), at(i)), InGroup(G(i), 0, "sample_rate", Num(s(i).y), at(i)),
                                                              InGroup(G(i), 0, "bits_per_sample", "16", at(i))}
                                  ELSE {InGroup(G(i), 0, "width", Num(s(i).x), at(i)), InGroup(G(i), 0, "height", Num(s(i).y), at(i)),
                                        InGroup(G(i), 0, "bits_per_pixel", "24", at(i))}) : i \in 1..n}]
AsfA == [kind |-> "audio", c |-> 353, x |-> 2, y |-> 44100, rate |-> 128000]
AsfB == [kind |-> "audio", c |-> 85, x |-> 1, y |-> 8000, rate |-> 64001]
AsfV == [kind |-> "video", c |-> 49, x |-> 320, y |-> 240, rate |-> 300000]
AsfW == [kind |-> "video", c |-> 51, x |-> 640, y |-> 17, rate |-> 900]
Asfs == {[fmt |-> IF \E i \in 1..Len(t) : t[i].kind = "video" THEN "wmv" ELSE "wma", streams |-> t, ms |-> m, seek |-> m = 61001, max |-> 128000, gap |-> o[1], back |-> o[2],
          late |-> o[3], said |-> x, descs |-> d] :
           t \in {<<AsfA>>, <<AsfB, AsfA>>, <<AsfV>>, <<AsfA, AsfV>>, <<AsfV, AsfB, AsfW>>, <<AsfB, AsfW, AsfA, AsfV>>}, m \in {61001, 4000},
           o \in {<<FALSE, FALSE, FALSE>>, <<TRUE, TRUE, FALSE>>, <<FALSE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>},
           x \in {<<<<Ann>>, <<BobLee>>, <<Cafe>>, <<>>, <<>>>>, <<<<>>, <<X>>, <<Dup(Ann)>>, <<Ann>>, <<X>>>>, <<<<Cafe>>, <<>>, <<X>>, <<>>, <<>>>>},
           d \in {<<>>, <<<<"album", Cafe, 0>>, <<"track_number", X, 3>>, <<"producer", Ann, 0>>>>, <<<<"album", X, 1>>, <<"other", Cafe, 0>>, <<"track_number", X, 4>>, <<"author", BobLee, 0>>>>}}

---------------------------------------------------------------------------
Asf_ == {"wma", "wmv"}
AsfOrDocs(f) == IF f \in Asf_ THEN {Asf(p) : p \in {p \in Asfs : p.fmt = f}} ELSE OtherOrDocs(f)
AsfOrMime(f) == CASE f = "wma" -> "audio/x-ms-wma" [] f = "wmv" -> "video/x-ms-wmv" [] OTHER -> OtherOrMime(f)
AsfOrBigEndian == OtherOrBigEndian
\* the type of the document is told by one of its streams
LateMime == {"rmvideo", "rmaudio", "wma", "wmv"}
=============================================================================
