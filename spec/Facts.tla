------------------------------- MODULE Facts -------------------------------
(***************************************************************************)
(* What documents say about themselves.                                     *)
(*                                                                         *)
(* A document is a sequence of slots (name, bytes) and a set of facts: each *)
(* fact (group, key, value) is stated by the slots up to `after'.  Facts    *)
(* with group "" concern the document, the others one of the files or       *)
(* pictures it contains (`nb': its number, from 0).                         *)
(*                                                                         *)
(* Whatever happens to the bytes behind the slot `after', a reader of the   *)
(* document has to learn the fact; and it never learns something false: a   *)
(* value of a key whose slots are all intact is one of its facts.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

L16(n) == <<n % 256, n \div 256>>
L32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
B16(n) == <<n \div 256, n % 256>>
B32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
B24(n) == <<(n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Fill(n, c) == [i \in 1..n |-> c]
Zeros(n) == Fill(n, 0)
\* octal digits, w of them
RECURSIVE Oct(_, _)
Oct(n, w) == IF w = 0 THEN <<>> ELSE Oct(n \div 8, w - 1) \o <<48 + (n % 8)>>

\* words: text and bytes
Word(s, b) == [s |-> s, b |-> b]
Ann == Word("Ann", <<65, 110, 110>>)
BobLee == Word("Bob Lee", <<66, 111, 98, 32, 76, 101, 101>>)
Cafe == Word("Cafe 42", <<67, 97, 102, 101, 32, 52, 50>>)
X == Word("x", <<120>>)
Dup(w) == [s |-> w.s \o w.s, b |-> w.b \o w.b]
Padded(w, n) == w.b \o Zeros(n - Len(w.b))

Slot(n, b) == [n |-> n, b |-> b]
Fact(k, v, after) == [g |-> "", nb |-> 0, k |-> k, v |-> v, after |-> after]
InGroup(g, nb, k, v, after) == [g |-> g, nb |-> nb, k |-> k, v |-> v, after |-> after]
Num(n) == ToString(n)
When(c, set) == IF c THEN set ELSE {}
RECURSIVE Size(_)
Size(slots) == IF slots = <<>> THEN 0 ELSE Len(slots[1].b) + Size(Tail(slots))
Bytes(doc) == FlattenSeq([i \in 1..Len(doc.slots) |-> doc.slots[i].b])
\* number of bytes up to the end of a slot
Need(doc, name) == LET i == CHOOSE i \in 1..Len(doc.slots) : doc.slots[i].n = name
                   IN Size(SubSeq(doc.slots, 1, i))

---------------------------------------------------------------------------
(* Pictures *)
BmpCodec == [i \in 0..5 |-> CASE i = 0 -> "Uncompressed" [] i = 1 -> "RLE 8-bit" [] i = 2 -> "RLE 4-bit"
                              [] i = 3 -> "Bitfields" [] i = 4 -> "JPEG" [] OTHER -> "PNG"]
\* dots per inch of n pixels per meter
Dpi(n) == ((n * 254) + 5000) \div 10000
Bmp(p) ==
  LET nb == IF p.bpp > 8 THEN 0 ELSE IF p.used > 0 THEN p.used ELSE 2 ^ p.bpp
      pix == (p.w * p.h * p.bpp) \div 8
      start == 14 + (IF p.ver = 4 THEN 108 ELSE 40) + 4 * nb
      last == IF p.ver = 4 THEN "v4" ELSE "v3"
  IN [fmt |-> "bmp",
      slots |-> <<Slot("file", <<66, 77>> \o L32(start + pix) \o Zeros(4) \o L32(start)),
                  Slot("dims", L32(IF p.ver = 4 THEN 108 ELSE 40) \o L32(p.w) \o L32(p.h) \o L16(1) \o L16(p.bpp)),
                  Slot("v3", L32(p.codec) \o L32(pix) \o L32(p.ppm) \o L32(2 * p.ppm) \o L32(p.used) \o L32(0))>>
               \o (IF p.ver = 4 THEN <<Slot("masks", Zeros(20)), Slot("v4", Zeros(48))>> ELSE <<>>)
               \o (IF nb > 0 THEN <<Slot("palette", Fill(4 * nb, 7))>> ELSE <<>>)
               \o <<Slot("pixels", Fill(pix, 5))>>,
      facts |-> {Fact("width", Num(p.w), "dims"), Fact("height", Num(p.h), "dims"),
                 Fact("bits_per_pixel", Num(p.bpp), "dims"),
                 Fact("compression", BmpCodec[p.codec], last),
                 Fact("format_version", "Microsoft Bitmap version " \o Num(p.ver), last),
                 Fact("compr_rate", "1.0", "pixels")}
                \cup When(p.bpp <= 8 /\ p.used > 0, {Fact("nb_colors", Num(p.used), "v3")})
                \cup When(p.ppm > 0, {Fact("width_dpi", Num(Dpi(p.ppm)), last), Fact("height_dpi", Num(Dpi(2 * p.ppm)), last)})]
Bmps == {[ppm |-> r, w |-> w, h |-> h, bpp |-> c[1], codec |-> c[2], used |-> c[3], ver |-> v] :
           w \in {8, 64}, h \in {1, 3}, c \in {<<24, 0, 0>>, <<8, 0, 5>>, <<4, 0, 0>>, <<32, 3, 0>>, <<8, 0, 256>>}, v \in {3, 4}, r \in {0, 2835, 11811}}

Chunk(tag, data) == B32(Len(data)) \o tag \o data \o Zeros(4)
IHDR == <<73, 72, 68, 82>>
PLTE == <<80, 76, 84, 69>>
TRNS == <<116, 82, 78, 83>>
TIME == <<116, 73, 77, 69>>
TEXT == <<116, 69, 88, 116>>
PHYS == <<112, 72, 89, 115>>
IDAT == <<73, 68, 65, 84>>
IEND == <<73, 69, 78, 68>>
Software == Word("Software", <<83, 111, 102, 116, 119, 97, 114, 101>>)
Comment == Word("Comment", <<67, 111, 109, 109, 101, 110, 116>>)
Title == Word("Title", <<84, 105, 116, 108, 101>>)
\* the kinds of pixels: type, bits, nb colors
PngFmt(p) == CASE p.type = 0 -> "Grayscale" [] p.type = 4 -> "Grayscale with alpha" [] p.type = 2 -> "RGB" [] p.type = 6 -> "RGBA"
               [] p.type = 3 /\ p.trns -> "Color index with transparency" [] OTHER -> "Color index"
PngBpp(p) == CASE p.type = 2 -> 3 * p.bits [] p.type = 6 -> 4 * p.bits [] p.type = 4 -> 2 * p.bits [] OTHER -> p.bits
Png(p) ==
  LET said == [i \in 1..Len(p.texts) |-> p.texts[i]]
  IN [fmt |-> "png",
      slots |-> <<Slot("id", <<137, 80, 78, 71, 13, 10, 26, 10>>),
                  Slot("header", Chunk(IHDR, B32(p.w) \o B32(p.h) \o <<p.bits, p.type, 0, 0, 0>>))>>
               \o (IF p.type = 3 THEN <<Slot("palette", Chunk(PLTE, Fill(3 * p.nb, 9)))>> ELSE <<>>)
               \o (IF p.type = 3 /\ p.trns THEN <<Slot("transparency", Chunk(TRNS, <<0>>))>> ELSE <<>>)
               \o [i \in 1..Len(said) |-> Slot("text" \o Num(i), Chunk(TEXT, said[i][1].b \o <<0>> \o said[i][2].b))]
               \o (IF p.y > 0 THEN <<Slot("time", Chunk(TIME, B16(p.y) \o <<11, 30, 23, 59, 58>>))>> ELSE <<>>)
               \o (IF p.ppm > 0 THEN <<Slot("phys", Chunk(PHYS, B32(p.ppm) \o B32(p.ppm) \o <<p.unit>>))>> ELSE <<>>)
               \o <<Slot("data", Chunk(IDAT, Fill(20, 3))), Slot("end", Chunk(IEND, <<>>))>>,
      facts |-> {Fact("width", Num(p.w), "header"), Fact("height", Num(p.h), "header"),
                 Fact("bits_per_pixel", Num(PngBpp(p)), "header"), Fact("compression", "deflate", "header"),
                 \* a picture is said to be transparent only behind the palette
                 Fact("pixel_format", PngFmt(p), IF p.type = 3 /\ p.trns THEN "transparency" ELSE "header")}
                \cup When(p.type = 3, {Fact("nb_colors", Num(IF p.trns THEN p.nb - 1 ELSE p.nb),
                                            IF p.trns THEN "transparency" ELSE "palette")})
                \* (without a unit only the shape of the pixels is stated)
                \cup When(p.ppm > 0 /\ p.unit = 1, {Fact("width_dpi", Num(Dpi(p.ppm)), "phys"), Fact("height_dpi", Num(Dpi(p.ppm)), "phys")})
                \cup When(p.y > 0, {Fact("creation_date", Num(p.y) \o "-11-30 23:59:58", "time")})
                \cup {Fact(IF said[i][1].s = "Software" THEN "producer" ELSE "comment",
                           (IF said[i][1].s \in {"Software", "Comment"} THEN "" ELSE said[i][1].s \o "=") \o said[i][2].s,
                           "text" \o Num(i)) : i \in 1..Len(said)}]
Pngs == {[ppm |-> r[1], unit |-> r[2], w |-> w, h |-> 300, type |-> c[1], bits |-> c[2], nb |-> c[3], trns |-> c[4], y |-> y, texts |-> t] :
           w \in {1, 19999}, c \in {<<2, 8, 0, FALSE>>, <<6, 8, 0, FALSE>>, <<3, 8, 6, FALSE>>, <<3, 4, 6, TRUE>>, <<2, 16, 0, FALSE>>, <<0, 1, 0, FALSE>>, <<0, 16, 0, FALSE>>, <<4, 8, 0, FALSE>>},
           y \in {0, 2010}, r \in {<<0, 0>>, <<2835, 1>>, <<1, 0>>}, t \in {<<>>, <<<<Comment, Ann>>>>, <<<<Software, BobLee>>, <<Title, Cafe>>, <<Comment, X>>>>}}

Gif(p) ==
  [fmt |-> "gif",
   slots |-> <<Slot("version", <<71, 73, 70, 56>> \o <<IF p.v = 9 THEN 57 ELSE 55, 97>>),
               Slot("screen", L16(p.w) \o L16(p.h) \o <<128 + (p.bits - 1), 0, 0>>),
               Slot("map", Fill(3 * (2 ^ p.bits), 17))>>
            \o (IF p.transp # -1 THEN <<Slot("control", <<33, 249, 4, p.transp, 0, 0, 1, 0>>)>> ELSE <<>>)
            \o [i \in 1..Len(p.texts) |-> Slot("text" \o Num(i), <<33, 254, Len(p.texts[i].b)>> \o p.texts[i].b \o <<0>>)]
            \o <<Slot("image", <<44>> \o Zeros(4) \o L16(1) \o L16(1) \o <<0, 2, 2, 68, 1, 0>>), Slot("end", <<59>>)>>,
   facts |-> {Fact("width", Num(p.w), "screen"), Fact("height", Num(p.h), "screen"),
              Fact("bits_per_pixel", Num(p.bits), "screen"), Fact("nb_colors", Num(2 ^ p.bits), "screen"),
              Fact("compression", "LZW", "screen"), Fact("format_version", "GIF version 8" \o Num(p.v) \o "a", "screen"),
              Fact("pixel_format", IF p.transp = 1 THEN "Color index with transparency" ELSE "Color index",
                   IF p.transp = -1 THEN "end" ELSE "control")}
             \cup {Fact("comment", p.texts[i].s, "text" \o Num(i)) : i \in 1..Len(p.texts)}]
Gifs == {[w |-> w, h |-> 20, bits |-> b, v |-> 9, transp |-> t, texts |-> c] :
           w \in {1, 640}, b \in {1, 3, 8}, t \in {-1, 0, 1}, c \in {<<>>, <<Ann>>, <<X, BobLee>>}}

PcxVersion(v) == CASE v = 0 -> "Version 2.5 of PC Paintbrush" [] v = 2 -> "Version 2.8 with palette information"
                   [] v = 3 -> "Version 2.8 without palette information" [] v = 4 -> "PC Paintbrush for Windows"
                   [] OTHER -> "Version 3.0 (or greater) of PC Paintbrush"
Pcx(p) ==
  [fmt |-> "pcx",
   slots |-> <<Slot("dims", <<10, p.v, 1, p.bpp>> \o L16(p.x) \o L16(2 * p.x) \o L16((p.x + p.w) - 1) \o L16(((2 * p.x) + p.h) - 1) \o L16(p.xd) \o L16(p.yd)),
               Slot("rest", Zeros(48) \o <<0, p.planes>> \o L16(p.w) \o L16(1) \o Zeros(58)),
               Slot("data", Fill(40, 193))>> \o (IF p.bpp = 8 THEN <<Slot("palette", Fill(768, 3))>> ELSE <<>>),
   facts |-> {Fact("width", Num(p.w), "rest"), Fact("height", Num(p.h), "rest"),
              Fact("width_dpi", Num(p.xd), "rest"), Fact("height_dpi", Num(p.yd), "rest"),
              Fact("bits_per_pixel", Num(p.bpp * p.planes), "rest"), Fact("compression", "Run-length encoding (RLE)", "rest"),
              Fact("format_version", "PCX: " \o PcxVersion(p.v), "rest")}
             \cup When(p.bpp * p.planes <= 8, {Fact("nb_colors", Num(2 ^ (p.bpp * p.planes)), "rest")})]
Pcxs == {[w |-> w, h |-> h, v |-> v, bpp |-> b[1], planes |-> b[2], x |-> x, xd |-> 72, yd |-> 300] :
           w \in {4, 1000}, h \in {1, 600}, v \in {0, 2, 3, 4, 5}, b \in {<<1, 1>>, <<1, 4>>, <<2, 1>>, <<4, 1>>, <<8, 1>>, <<8, 3>>, <<24, 1>>}, x \in {0, 20}}

TgaCodec(c) == CASE c = 2 -> "True-color uncompressed" [] c = 3 -> "Grayscale uncompressed" [] c = 1 -> "Palette uncompressed"
                 [] OTHER -> "True-color RLE"
Tga(p) ==
  LET pix == (p.w * p.h * p.bpp) \div 8
  IN [fmt |-> "tga",
      slots |-> <<Slot("header", <<0, IF p.nb > 0 THEN 1 ELSE 0, p.codec>> \o L16(0) \o L16(p.nb) \o <<IF p.nb > 0 THEN 24 ELSE 0>>
                              \o L16(0) \o L16(0) \o L16(p.w) \o L16(p.h) \o <<p.bpp, 32>>)>>
               \o (IF p.nb > 0 THEN <<Slot("palette", Fill(3 * p.nb, 8))>> ELSE <<>>) \o <<Slot("pixels", Fill(pix, 77))>>,
      facts |-> {Fact("width", Num(p.w), "header"), Fact("height", Num(p.h), "header"),
                 Fact("bits_per_pixel", Num(p.bpp), "header"), Fact("compression", TgaCodec(p.codec), "header")}
                \cup When(p.nb > 0, {Fact("nb_colors", Num(p.nb), "header")})]
Tgas == {[w |-> w, h |-> 5, bpp |-> c[2], codec |-> c[1], nb |-> c[3]] :
           w \in {2, 33}, c \in {<<2, 24, 0>>, <<2, 32, 0>>, <<3, 8, 0>>, <<1, 8, 256>>}}

\* icons: each with its 40 bytes header and one pixel line
IconPix == 32
Ico(p) ==
  LET n == Len(p.icons)
      Sz(i) == 40 + (IF p.icons[i].bpp = 8 THEN 1024 ELSE 4 * p.icons[i].nb) + IconPix
      RECURSIVE At(_)
      At(i) == IF i = 1 THEN 6 + 16 * n ELSE At(i - 1) + Sz(i - 1)
      Hdr(i) == <<p.icons[i].w, p.icons[i].w, p.icons[i].nb, 0>> \o L16(p.icons[i].pl) \o L16(p.icons[i].bpp) \o L32(Sz(i)) \o L32(At(i))
      Img(i) == L32(40) \o L32(p.icons[i].w) \o L32(2 * p.icons[i].w) \o L16(1) \o L16(p.icons[i].bpp) \o L32(0) \o Zeros(20)
                \o Fill(Sz(i) - 40, 6)
      Depth(i) == IF p.icons[i].bpp > 0 THEN p.icons[i].bpp ELSE IF p.icons[i].nb = 16 THEN 4 ELSE 8
  IN [fmt |-> "ico",
      slots |-> <<Slot("head", L16(0) \o L16(p.t) \o L16(n))>> \o [i \in 1..n |-> Slot("hdr" \o Num(i), Hdr(i))]
               \o [i \in 1..n |-> Slot("data" \o Num(i), Img(i))],
      facts |-> UNION {{InGroup("image[" \o Num(i - 1) \o "]", 0, "width", Num(p.icons[i].w), "hdr" \o Num(i)),
                        InGroup("image[" \o Num(i - 1) \o "]", 0, "height", Num(p.icons[i].w), "hdr" \o Num(i)),
                        InGroup("image[" \o Num(i - 1) \o "]", 0, "bits_per_pixel", Num(Depth(i)), "hdr" \o Num(i)),
                        InGroup("image[" \o Num(i - 1) \o "]", 0, "compression", "Uncompressed (RGB)", "data" \o Num(i))}
                       \cup When(p.icons[i].nb > 0, {InGroup("image[" \o Num(i - 1) \o "]", 0, "nb_colors", Num(p.icons[i].nb), "hdr" \o Num(i))})
                       : i \in 1..n}]
Icos == {[t |-> t, icons |-> s] : t \in {1, 2},
           s \in {<<a>> : a \in {[w |-> 16, nb |-> 16, pl |-> 1, bpp |-> 4], [w |-> 48, nb |-> 0, pl |-> 1, bpp |-> 8], [w |-> 32, nb |-> 0, pl |-> 1, bpp |-> 24],
                                 [w |-> 32, nb |-> 16, pl |-> 0, bpp |-> 0]}}
              \cup {<<[w |-> 16, nb |-> 0, pl |-> 1, bpp |-> 32], [w |-> 32, nb |-> 16, pl |-> 1, bpp |-> 4], [w |-> 64, nb |-> 0, pl |-> 1, bpp |-> 8]>>}}

---------------------------------------------------------------------------
(* Sounds *)
Even(b) == IF Len(b) % 2 = 0 THEN b ELSE b \o <<0>>
Riff(tag, data) == tag \o L32(Len(data)) \o Even(data)
FMT == <<102, 109, 116, 32>>
FACT == <<102, 97, 99, 116>>
DATA == <<100, 97, 116, 97>>
LIST == <<76, 73, 83, 84>>
INFO == <<73, 78, 70, 79>>
RiffTag(k) == CASE k = "title" -> <<73, 78, 65, 77>> [] k = "artist" -> <<73, 65, 82, 84>> [] k = "comment" -> <<73, 67, 77, 84>>
                [] k = "copyright" -> <<73, 67, 79, 80>> [] k = "author" -> <<73, 69, 78, 71>> [] OTHER -> <<73, 83, 70, 84>>
InfoList(info) == Riff(LIST, INFO \o FlattenSeq([i \in 1..Len(info) |-> Riff(RiffTag(info[i][1]), info[i][2].b \o <<0>>)]))
WavCodec(c) == IF c = 1 THEN "Microsoft Pulse Code Modulation (PCM)" ELSE "IEEE Float"
Wav(p) ==
  LET body == <<Slot("fmt", Riff(FMT, L16(p.codec) \o L16(p.ch) \o L32(p.rate) \o L32((p.rate * p.ch * p.bits) \div 8)
                                      \o L16((p.ch * p.bits) \div 8) \o L16(p.bits)))>>
              \o (IF p.fact > 0 THEN <<Slot("fact", Riff(FACT, L32(p.fact)))>> ELSE <<>>)
              \o (IF p.first /\ p.info # <<>> THEN <<Slot("info", InfoList(p.info))>> ELSE <<>>)
              \o <<Slot("data", Riff(DATA, Fill(p.n, 128)))>>
              \o (IF ~p.first /\ p.info # <<>> THEN <<Slot("info", InfoList(p.info))>> ELSE <<>>)
      rate == p.ch * p.bits * p.rate
  IN [fmt |-> "wav",
      slots |-> <<Slot("riff", <<82, 73, 70, 70>> \o L32(4 + Size(body)) \o <<87, 65, 86, 69>>)>> \o body,
      facts |-> {Fact("nb_channel", Num(p.ch), "fmt"), Fact("bits_per_sample", Num(p.bits), "fmt"),
                 Fact("sample_rate", Num(p.rate), "fmt"), Fact("compression", WavCodec(p.codec), "fmt"),
                 Fact("bit_rate", Num(rate), "fmt"), Fact("compr_rate", "1.0", "data")}
                \cup (IF p.fact > 0 THEN {Fact("duration", Num((p.fact * 1000) \div p.rate), "fact")}
                      ELSE {Fact("duration", Num((p.n * 8000) \div rate), "data")})
                \cup {Fact(p.info[i][1], p.info[i][2].s, "info") : i \in 1..Len(p.info)}]
\* (sizes such that the duration is a whole number of milliseconds)
Wavs == {[ch |-> c[1], bits |-> c[2], rate |-> c[3], codec |-> c[4], n |-> (c[1] * c[2] * c[3]) \div 800, fact |-> f * (c[3] \div 100), first |-> b, info |-> t] :
           c \in {<<1, 8, 8000, 1>>, <<2, 16, 44100, 1>>, <<1, 32, 16000, 3>>}, f \in {0, 1}, b \in BOOLEAN,
           t \in {<<>>, <<<<"title", Ann>>>>, <<<<"artist", BobLee>>, <<"comment", X>>, <<"copyright", Cafe>>, <<"author", Ann>>, <<"producer", BobLee>>>>}}

AuCodec(c) == CASE c = 1 -> <<8, "8-bit ISDN u-law">> [] c = 2 -> <<8, "8-bit linear PCM">> [] c = 3 -> <<16, "16-bit linear PCM">>
                [] c = 5 -> <<32, "32-bit linear PCM">> [] OTHER -> <<8, "8-bit ISDN A-law">>
Au(p) ==
  LET bits == AuCodec(p.codec)[1]
      rate == bits * p.ch * p.rate
      n == rate \div 800     \* 10 milliseconds
      info == IF p.info = <<>> THEN <<>> ELSE Padded(p.info[1], 8)
  IN [fmt |-> "au",
      slots |-> <<Slot("header", <<46, 115, 110, 100>> \o B32(24 + Len(info)) \o B32(n) \o B32(p.codec) \o B32(p.rate) \o B32(p.ch))>>
               \o (IF p.info = <<>> THEN <<>> ELSE <<Slot("info", info)>>) \o <<Slot("data", Fill(n, 64))>>,
      facts |-> {Fact("sample_rate", Num(p.rate), "header"), Fact("nb_channel", Num(p.ch), "header"),
                 Fact("compression", AuCodec(p.codec)[2], "header"), Fact("bits_per_sample", Num(bits), "header"),
                 Fact("bit_rate", Num(rate), "header"), Fact("duration", "10", "data"), Fact("compr_rate", "1.0", "data")}
                \cup When(p.info # <<>>, {Fact("comment", p.info[1].s, "info")})]
Aus == {[codec |-> c, ch |-> h, rate |-> r, info |-> t] : c \in {1, 2, 3, 5, 27}, h \in {1, 2}, r \in {8000, 44100},
          t \in {<<>>, <<BobLee>>}}

FORM == <<70, 79, 82, 77>>
BChunk(tag, data) == tag \o B32(Len(data)) \o Even(data)
COMM == <<67, 79, 77, 77>>
SSND == <<83, 83, 78, 68>>
NAME == <<78, 65, 77, 69>>
Float80(r) == CASE r = 8000 -> <<64, 11, 250, 0, 0, 0, 0, 0, 0, 0>> [] r = 44100 -> <<64, 14, 172, 68, 0, 0, 0, 0, 0, 0>>
                [] OTHER -> <<64, 14, 187, 128, 0, 0, 0, 0, 0, 0>>   \* 48000
AiffCodec(c) == IF c = "NONE" THEN <<78, 79, 78, 69>> ELSE <<115, 111, 119, 116>>
Aiff(p) ==
  LET body == <<Slot("common", BChunk(COMM, B16(p.ch) \o B32(p.nb) \o B16(p.bits) \o Float80(p.rate)
                                            \o (IF p.codec = "" THEN <<>> ELSE AiffCodec(p.codec))))>>
              \o (IF p.named THEN <<Slot("name", BChunk(NAME, Ann.b))>> ELSE <<>>)
              \o <<Slot("sound", BChunk(SSND, Zeros(8) \o Fill(30, 9)))>>
  IN [fmt |-> "aiff",
      slots |-> <<Slot("form", FORM \o B32(4 + Size(body)) \o <<65, 73, 70, IF p.codec = "" THEN 70 ELSE 67>>)>> \o body,
      facts |-> {Fact("nb_channel", Num(p.ch), "common"), Fact("bits_per_sample", Num(p.bits), "common"),
                 Fact("sample_rate", Num(p.rate) \o ".0", "common"),
                 Fact("bit_rate", Num(p.ch * p.bits * p.rate) \o ".0", "common"),
                 Fact("duration", Num((p.nb * 1000) \div p.rate), "common")}
                \cup When(p.codec = "NONE", {Fact("compression", "None", "common")})
                \cup When(p.codec = "sowt", {Fact("compression", "Little-endian, no compression", "common")})]
Aiffs == {[ch |-> h, bits |-> b, rate |-> r, nb |-> (r \div 1000) * 1000, codec |-> c, named |-> n] :
            h \in {1, 2}, b \in {8, 16}, r \in {8000, 48000}, c \in {"NONE", "sowt"}, n \in BOOLEAN}

\* 20 bits of rate, 3 of channels, 5 of bits per sample, 36 of samples
FlacInfo(p) == LET hi == p.rate \div 16
                   lo == (p.rate % 16) * 16 + (p.ch - 1) * 2 + ((p.bits - 1) \div 16)
               IN B16(4096) \o B16(4096) \o B24(0) \o B24(0) \o B16(hi) \o <<lo, ((p.bits - 1) % 16) * 16>> \o B32(p.nb) \o Fill(16, 99)
VKey(k) == CASE k = "title" -> <<84, 73, 84, 76, 69, 61>> [] k = "artist" -> <<97, 114, 116, 105, 115, 116, 61>>
             [] k = "album" -> <<65, 108, 98, 117, 109, 61>> [] OTHER -> <<67, 79, 77, 77, 69, 78, 84, 61>>
LText(b) == L32(Len(b)) \o b
Vorbis(p) == LText(Cafe.b) \o L32(Len(p.tags)) \o FlattenSeq([i \in 1..Len(p.tags) |-> LText(VKey(p.tags[i][1]) \o p.tags[i][2].b)])
Flac(p) ==
  LET has == p.tags # <<>>
      com == Vorbis(p)
  IN [fmt |-> "flac",
      slots |-> <<Slot("id", <<102, 76, 97, 67>>), Slot("info", <<IF has THEN 0 ELSE 128>> \o B24(34) \o FlacInfo(p))>>
               \o (IF has THEN <<Slot("tags", <<128 + 4>> \o B24(Len(com)) \o com)>> ELSE <<>>)
               \o <<Slot("frames", <<255, 248, 201, 24, 0, 0, 0, 0>>)>>,
      facts |-> {Fact("nb_channel", Num(p.ch), "info"), Fact("bits_per_sample", Num(p.bits), "info"),
                 Fact("sample_rate", Num(p.rate), "info"), Fact("duration", Num((p.nb * 1000) \div p.rate), "info")}
                \cup When(has, {Fact("producer", Cafe.s, "tags")}
                               \cup {Fact(p.tags[i][1], p.tags[i][2].s, "tags") : i \in 1..Len(p.tags)})]
Flacs == {[rate |-> r, ch |-> c, bits |-> b, nb |-> r * 3, tags |-> t] : r \in {44100, 96000}, c \in {1, 2, 8}, b \in {8, 16, 24},
            t \in {<<>>, <<<<"title", Ann>>>>, <<<<"artist", BobLee>>, <<"album", X>>, <<"title", Ann>>, <<"comment", Dup(Ann)>>>>}}

---------------------------------------------------------------------------
(* Archives *)
TarType(t) == CASE t = 48 -> "Normal disk file" [] t = 50 -> "Symbolic link" [] OTHER -> "Directory"
TarHead(f) == Padded(f.name, 100) \o Oct(f.mode, 7) \o <<0>> \o Oct(f.uid, 7) \o <<0>> \o Oct(f.gid, 7) \o <<0>>
              \o Oct(f.size, 11) \o <<0>> \o Oct(f.mtime, 11) \o <<0>> \o Fill(8, 32) \o <<f.type>> \o Zeros(100)
              \o <<117, 115, 116, 97, 114, 32, 32, 0>> \o Padded(f.user, 32) \o Padded(f.group, 32) \o Zeros(183)
Up512(n) == ((n + 511) \div 512) * 512
Attr(m) == CASE m = 420 -> "-rw-r--r-- (644)" [] m = 493 -> "-rwxr-xr-x (755)" [] OTHER -> "-rw------- (600)"
Tar(p) ==
  LET n == Len(p.files)
      G(i) == "file[" \o Num(i - 1) \o "]"
      f(i) == p.files[i]
  IN [fmt |-> "tar",
      slots |-> FlattenSeq([i \in 1..n |-> <<Slot("head" \o Num(i), TarHead(f(i)))>>
                              \o (IF f(i).size > 0 THEN <<Slot("data" \o Num(i), Fill(f(i).size, 100) \o Zeros(Up512(f(i).size) - f(i).size))>> ELSE <<>>)])
               \o <<Slot("end", Zeros(1024))>>,
      facts |-> UNION {{InGroup(G(i), i - 1, "filename", f(i).name.s, "head" \o Num(i)),
                        InGroup(G(i), i - 1, "file_attr", Attr(f(i).mode), "head" \o Num(i)),
                        InGroup(G(i), i - 1, "file_size", Num(f(i).size), "head" \o Num(i)),
                        InGroup(G(i), i - 1, "file_type", TarType(f(i).type), "head" \o Num(i)),
                        InGroup(G(i), i - 1, "author", f(i).user.s \o " (uid=" \o Num(f(i).uid) \o "), group " \o f(i).group.s
                                   \o " (gid=" \o Num(f(i).gid) \o ")", "head" \o Num(i))}
                       \cup When(f(i).mtime = 86399, {InGroup(G(i), i - 1, "last_modification", "1970-01-01 23:59:59", "head" \o Num(i))})
                       \cup When(f(i).mtime = 1000000000, {InGroup(G(i), i - 1, "last_modification", "2001-09-09 01:46:40", "head" \o Num(i))})
                       : i \in 1..n}]
TarFiles == <<[name |-> Ann, mode |-> 420, uid |-> 0, gid |-> 100, size |-> 5, mtime |-> 1000000000, type |-> 48, user |-> BobLee, group |-> X],
              [name |-> Cafe, mode |-> 493, uid |-> 1000, gid |-> 7, size |-> 0, mtime |-> 86399, type |-> 53, user |-> X, group |-> Ann],
              [name |-> Dup(Cafe), mode |-> 384, uid |-> 1, gid |-> 1, size |-> 513, mtime |-> 0, type |-> 48, user |-> Ann, group |-> Ann]>>
Number(F, n) == [i \in 1..n |-> LET f == F[((i - 1) % Len(F)) + 1]
                               IN [f EXCEPT !.name = Word((IF i < 10 THEN "0" ELSE "") \o Num(i) \o @.s, <<48 + (i \div 10), 48 + (i % 10)>> \o @.b)]]
Tars == {[files |-> <<TarFiles[i]>>] : i \in {1, 3}} \cup {[files |-> <<TarFiles[2], TarFiles[1]>>], [files |-> TarFiles],
         [files |-> Number(TarFiles, 12)]}

ZipHead(f) == L16(10) \o L16(0) \o L16(0) \o <<102, 11, 126, 61>> \o L32(305419896) \o L32(f.size) \o L32(f.size) \o L16(Len(f.name.b)) \o L16(0)
ZipDoc(p) ==
  LET n == Len(p.files)
      f(i) == p.files[i]
      G(i) == "file[" \o Num(i - 1) \o "]"
      local == FlattenSeq([i \in 1..n |-> <<Slot("head" \o Num(i), <<80, 75, 3, 4>> \o ZipHead(f(i)) \o f(i).name.b)>>
                              \o (IF f(i).size > 0 THEN <<Slot("data" \o Num(i), Fill(f(i).size, 101))>> ELSE <<>>)])
      dir == FlattenSeq([i \in 1..n |-> <<80, 75, 1, 2, 20, 0>> \o ZipHead(f(i)) \o Zeros(14) \o f(i).name.b])
  IN [fmt |-> "zip",
      slots |-> local \o <<Slot("dir", dir),
                           Slot("end", <<80, 75, 5, 6>> \o Zeros(4) \o L16(n) \o L16(n) \o L32(Len(dir)) \o L32(Size(local))
                                       \o L16(Len(p.comment)) \o p.comment)>>,
      facts |-> UNION {{InGroup(G(i), i - 1, "filename", f(i).name.s, "head" \o Num(i)),
                        InGroup(G(i), i - 1, "compression", "no compression", "head" \o Num(i)),
                        InGroup(G(i), i - 1, "creation_date", "2010-11-30 01:27:12", "head" \o Num(i)),
                        InGroup(G(i), i - 1, "file_size", Num(f(i).size), "head" \o Num(i))}
                       \cup When(f(i).size > 0, {InGroup(G(i), i - 1, "compr_size", Num(f(i).size), "head" \o Num(i)),
                                                 InGroup(G(i), i - 1, "compr_rate", "1.0", "head" \o Num(i))})
                       : i \in 1..n}
                \cup When(p.comment # <<>>, {Fact("comment", BobLee.s, "end")})]
Zips == {[files |-> s, comment |-> c] : s \in {<<TarFiles[1]>>, <<TarFiles[2], TarFiles[1]>>, Number(TarFiles, 12)}, c \in {<<>>, BobLee.b}}

GzOs(o) == CASE o = 3 -> "Unix" [] o = 0 -> "FAT filesystem" [] OTHER -> "NTFS filesystem"
Gzip(p) ==
  [fmt |-> "gzip",
   slots |-> <<Slot("head", <<31, 139, 8, (IF p.name = <<>> THEN 0 ELSE 8) + (IF p.comment = <<>> THEN 0 ELSE 16)>>
                              \o L32(p.mtime) \o <<0, p.os>>)>>
            \o (IF p.name = <<>> THEN <<>> ELSE <<Slot("name", p.name[1].b \o <<0>>)>>)
            \o (IF p.comment = <<>> THEN <<>> ELSE <<Slot("comment", p.comment[1].b \o <<0>>)>>)
            \o <<Slot("data", <<75, 76, 74, 6, 0>>), Slot("footer", L32(891568578) \o L32(3))>>,
   facts |-> {Fact("compression", "deflate", "head"), Fact("os", GzOs(p.os), "head"),
              Fact("file_size", "3", "footer"), Fact("compr_size", "5", "footer"),
              Fact("compr_rate", "0.6", "footer")}
             \* (no time is stated by 0)
             \cup When(p.mtime > 0, {Fact("last_modification", "2001-09-09 01:46:40", "head")})
             \cup When(p.name # <<>>, {Fact("filename", p.name[1].s, "name")})
             \cup When(p.comment # <<>>, {Fact("comment", p.comment[1].s, "comment")})]
Gzips == {[name |-> n, comment |-> c, os |-> o, mtime |-> m] : m \in {0, 1000000000}, n \in {<<>>, <<Cafe>>}, c \in {<<>>, <<BobLee>>}, o \in {0, 3}}

Formats == {"bmp", "png", "gif", "pcx", "tga", "ico", "wav", "au", "aiff", "flac", "tar", "zip", "gzip"}
Docs(f) ==
  CASE f = "bmp" -> {Bmp(p) : p \in Bmps} [] f = "png" -> {Png(p) : p \in Pngs} [] f = "gif" -> {Gif(p) : p \in Gifs}
    [] f = "pcx" -> {Pcx(p) : p \in Pcxs} [] f = "tga" -> {Tga(p) : p \in Tgas} [] f = "ico" -> {Ico(p) : p \in Icos}
    [] f = "wav" -> {Wav(p) : p \in Wavs} [] f = "au" -> {Au(p) : p \in Aus} [] f = "aiff" -> {Aiff(p) : p \in Aiffs}
    [] f = "flac" -> {Flac(p) : p \in Flacs} [] f = "tar" -> {Tar(p) : p \in Tars} [] f = "zip" -> {ZipDoc(p) : p \in Zips}
    [] OTHER -> {Gzip(p) : p \in Gzips}

---------------------------------------------------------------------------
(* Structures within a header whose length is not known beforehand: if the  *)
(* end of the file comes in the middle of them, nothing has to be learned   *)
(* from the header.                                                        *)
Fragile == {"v4"}

(* Readers.  quality is in eighths (0..8).  The number of files of an       *)
(* archive which are read depends on the quality.                           *)
MaxFiles(q) == IF q <= 0 THEN 0 ELSE IF q >= 8 THEN 1000000 ELSE 1 + (10 * q) \div 8
Archives == {"tar", "zip", "mar", "cab"}
Mime(f) == CASE f = "bmp" -> "image/x-ms-bmp" [] f = "png" -> "image/png" [] f = "gif" -> "image/gif" [] f = "pcx" -> "image/x-pcx"
             [] f = "tga" -> "image/targa" [] f = "ico" -> "image/x-ico" [] f = "wav" -> "audio/x-wav" [] f = "au" -> "audio/basic"
             [] f = "aiff" -> "audio/x-aiff" [] f = "flac" -> "audio/x-flac" [] f = "tar" -> "application/x-tar"
             [] f = "zip" -> "application/zip" [] OTHER -> "application/x-gzip"
BigEndian == {"png", "au", "aiff", "flac", "tar"}
\* (nb = 1 of a Matroska document: stated behind the clusters)
Wanted(doc, q) ==
  {x \in doc.facts : CASE doc.fmt \in Archives /\ x.g # "" -> x.nb < MaxFiles(q)
                       [] doc.fmt \in {"oggvorbis", "oggtheora"} /\ x.g = "" /\ x.k = "duration" -> q >= 4
                       [] doc.fmt \in {"mkv", "webm"} /\ x.nb = 1 -> q >= 6
                       [] OTHER -> TRUE}
=============================================================================
