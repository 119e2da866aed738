----------------------------- MODULE MoreFacts -----------------------------
(***************************************************************************)
(* More documents which say something about themselves (see Facts): JPEG    *)
(* with EXIF, TIFF, PSD, XCF, EMF and APM pictures, Flash movies and videos, *)
(* torrents, bzip2 and MAR archives.                                        *)
(***************************************************************************)
EXTENDS Facts, Bitwise

\* n in w bits, the most important one first
BitsOf(n, w) == [i \in 1..w |-> (n \div (2 ^ (w - i))) % 2]
Pack(bits) == [i \in 1..(Len(bits) \div 8) |->
                 LET b(j) == bits[8 * (i - 1) + j]
                 IN 128 * b(1) + 64 * b(2) + 32 * b(3) + 16 * b(4) + 8 * b(5) + 4 * b(6) + 2 * b(7) + b(8)]
Cat(l) == FlattenSeq(l)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
\* n / 2^d (0 < n < 2^23) as a big endian number of floating point
Floating(n, d, exp, man) ==
  LET e == Log2(n)
  IN Pack(<<0>> \o BitsOf((e - d) + (2 ^ (exp - 1) - 1), exp) \o BitsOf(n - 2 ^ e, e) \o Zeros(man - e))
F64(n, d) == Floating(n, d, 11, 52)
F32(n, d) == Floating(n, d, 8, 23)
W16(be, n) == IF be THEN B16(n) ELSE L16(n)
W32(be, n) == IF be THEN B32(n) ELSE L32(n)
L64(n) == L32(n) \o Zeros(4)
B64(n) == Zeros(4) \o B32(n)
Utf16(b) == FlattenSeq([i \in 1..Len(b) |-> <<b[i], 0>>])
Digits(n) == LET RECURSIVE D(_)
                 D(k) == (IF k < 10 THEN <<>> ELSE D(k \div 10)) \o <<48 + (k % 10)>>
             IN D(n)
Spaced(b, n) == b \o Fill(n - Len(b), 32)

---------------------------------------------------------------------------
(* Directories of fields (TIFF, EXIF): entries [tag, type, n, val]; a value  *)
(* of more than 4 bytes is stored behind the directory.                     *)
Short(be, tag, v) == [tag |-> tag, type |-> 3, n |-> 1, val |-> W16(be, v)]
Long(be, tag, v) == [tag |-> tag, type |-> 4, n |-> 1, val |-> W32(be, v)]
Asc(tag, b) == [tag |-> tag, type |-> 2, n |-> Len(b) + 1, val |-> b \o <<0>>]
Ratio(be, tag, a, b) == [tag |-> tag, type |-> 5, n |-> 1, val |-> W32(be, a) \o W32(be, b)]
Ratios(be, tag, s) == [tag |-> tag, type |-> 5, n |-> Len(s), val |-> Cat([i \in 1..Len(s) |-> W32(be, s[i][1]) \o W32(be, s[i][2])])]
Behind(es) == SelectSeq(es, LAMBDA e : Len(e.val) > 4)
IfdSize(es) == 6 + 12 * Len(es)
Vals(es) == Cat([i \in 1..Len(Behind(es)) |-> Behind(es)[i].val])
\* the directory, `at' bytes from the beginning
Ifd(be, es, at, next) ==
  W16(be, Len(es))
  \o Cat([i \in 1..Len(es) |->
            W16(be, es[i].tag) \o W16(be, es[i].type) \o W32(be, es[i].n)
            \o (IF Len(es[i].val) > 4
                THEN W32(be, at + IfdSize(es) + Len(Vals(SubSeq(es, 1, i - 1))))
                ELSE es[i].val \o Zeros(4 - Len(es[i].val)))])
  \o W32(be, next)
TiffHead(be) == IF be THEN <<77, 77, 0, 42, 0, 0, 0, 8>> ELSE <<73, 73, 42, 0, 8, 0, 0, 0>>
Date == Word("2010-11-30 23:59:58", <<50, 48, 49, 48, 58, 49, 49, 58, 51, 48, 32, 50, 51, 58, 53, 57, 58, 53, 56>>)

Tiff(p) ==
  LET dpi == p.dpi
      es0 == <<Short(p.be, 256, p.w), Long(p.be, 257, p.h), Short(p.be, 258, p.bps), Short(p.be, 259, 1)>>
      said == (IF p.text THEN <<Asc(269, Ann.b), Asc(270, BobLee.b)>> ELSE <<>>)
      es1(strip) == <<Long(p.be, 273, strip), Short(p.be, 277, p.spp), Long(p.be, 279, 16)>>
      res == IF dpi > 0 THEN <<Ratio(p.be, 282, 3 * dpi, 3), Ratio(p.be, 283, 3 * (dpi + 28), 3), Short(p.be, 296, p.unit)>> ELSE <<>>
      more == (IF p.text THEN <<Asc(305, Cafe.b), Asc(306, Date.b)>> ELSE <<>>)
      es(strip) == es0 \o said \o es1(strip) \o res \o more
      at == 8 + IfdSize(es(0)) + Len(Vals(es(0)))
      all == es(at)
      big == Behind(all)
      \* which of the values behind the directory states a tag
      At(tag) == IF \E i \in 1..Len(big) : big[i].tag = tag
                 THEN "value" \o Num(CHOOSE i \in 1..Len(big) : big[i].tag = tag) ELSE "dir"
      \* centimeters: 2.54 times as many to an inch
      Inch(n) == Num(IF p.unit = 2 THEN n ELSE (((n * 254) + 50) \div 100))
  IN [fmt |-> IF p.be THEN "tiffbe" ELSE "tiff",
      slots |-> <<Slot("head", TiffHead(p.be)), Slot("dir", Ifd(p.be, all, 8, 0))>>
               \o [i \in 1..Len(big) |-> Slot("value" \o Num(i), big[i].val)]
               \o <<Slot("strip", Fill(16, 85))>>,
      facts |-> {Fact("width", Num(p.w), "dir"), Fact("height", Num(p.h), "dir"),
                 Fact("bits_per_pixel", Num(p.bps * p.spp), "dir")}
                \cup When(dpi > 0 /\ p.unit # 1, {Fact("width_dpi", Inch(dpi), At(282)), Fact("height_dpi", Inch(dpi + 28), At(283))})
                \cup When(p.text, {Fact("title", Ann.s, At(269)), Fact("comment", BobLee.s, At(270)),
                                   Fact("producer", Cafe.s, At(305)), Fact("creation_date", Date.s, At(306))})]
Tiffs == {[be |-> b, w |-> w, h |-> 300, bps |-> c[1], spp |-> c[2], dpi |-> d[1], unit |-> d[2], text |-> t] :
            b \in BOOLEAN, w \in {7, 1024}, c \in {<<8, 3>>, <<1, 1>>, <<16, 4>>}, d \in {<<0, 2>>, <<72, 2>>, <<100, 3>>, <<4, 1>>}, t \in BOOLEAN}

---------------------------------------------------------------------------
(* JPEG *)
Marker(m, data) == <<255, m>> \o B16(2 + Len(data)) \o data
Jfif == <<74, 70, 73, 70, 0>>
Zigzag == <<0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28,
            35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63>>
Luminance == <<16, 11, 10, 16, 24, 40, 51, 61, 12, 12, 14, 19, 26, 58, 60, 55, 14, 13, 16, 24, 40, 57, 69, 56, 14, 17, 22, 29, 51, 87, 80, 62,
               18, 22, 37, 56, 68, 109, 103, 77, 24, 35, 55, 64, 81, 104, 113, 92, 49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99>>
Chrominance == <<17, 18, 24, 47, 99, 99, 99, 99, 18, 21, 26, 66, 99, 99, 99, 99, 24, 26, 56, 99, 99, 99, 99, 99, 47, 66, 99, 99, 99, 99, 99, 99>>
               \o Fill(32, 99)
\* the tables of quality q (1..100), as the Independent JPEG Group scales them
Quant(table, q) ==
  LET scale == IF q < 50 THEN 5000 \div q ELSE 200 - (2 * q)
      One(v) == LET x == ((v * scale) + 50) \div 100 IN IF x < 1 THEN 1 ELSE IF x > 255 THEN 255 ELSE x
  IN [i \in 1..64 |-> One(table[Zigzag[i] + 1])]
SofName(m) == CASE m = 192 -> "Baseline" [] m = 193 -> "Extended sequential" [] OTHER -> "Progressive"
\* EXIF: the main directory, the one of the exposure and the one of the position
Exif(p) ==
  LET be == p.be
      main(e, g) == <<Asc(270, Ann.b), Asc(271, BobLee.b), Asc(272, Cafe.b), Short(be, 274, p.orient), Asc(305, X.b), Asc(306, Date.b),
                      Long(be, 34665, e)>> \o (IF p.gps THEN <<Long(be, 34853, g)>> ELSE <<>>)
      sub == <<Ratio(be, 33434, 1, 4), Ratio(be, 33437, 11, 4), Short(be, 34855, p.iso)>>
      \* 48 degrees 30 minutes 36 seconds; 2 degrees 15 minutes
      pos == <<[tag |-> 1, type |-> 2, n |-> 2, val |-> <<IF p.south THEN 83 ELSE 78, 0>>],
               Ratios(be, 2, <<<<48, 1>>, <<30, 1>>, <<36, 1>>>>),
               [tag |-> 3, type |-> 2, n |-> 2, val |-> <<IF p.south THEN 87 ELSE 69, 0>>],
               Ratios(be, 4, <<<<2, 1>>, <<15, 1>>, <<0, 1>>>>),
               [tag |-> 5, type |-> 1, n |-> 1, val |-> <<IF p.south THEN 1 ELSE 0>>],
               Ratio(be, 6, 201, 2)>>
      at1 == 8 + IfdSize(main(0, 0)) + Len(Vals(main(0, 0)))
      at2 == at1 + IfdSize(sub) + Len(Vals(sub))
      m == main(at1, at2)
  IN TiffHead(be) \o Ifd(be, m, 8, 0) \o Vals(m) \o Ifd(be, sub, at1, 0) \o Vals(sub)
     \o (IF p.gps THEN Ifd(be, pos, at2, 0) \o Vals(pos) ELSE <<>>)
Orient(o) == CASE o = 1 -> "Horizontal (normal)" [] o = 3 -> "Rotated 180" [] o = 6 -> "Rotated 90 clock-wise" [] OTHER -> "Rotated 90 counter clock-wise"
Jpeg(p) ==
  LET color == p.nc = 3
      tabs == <<Marker(219, <<0>> \o Quant(Luminance, p.q))>> \o (IF color THEN <<Marker(219, <<1>> \o Quant(Chrominance, p.q))>> ELSE <<>>)
      both == <<Marker(219, <<0>> \o Quant(Luminance, p.q) \o <<1>> \o Quant(Chrominance, p.q))>>
      dqt == IF color /\ p.one THEN both ELSE tabs
      comp == <<<<1, 34, 0>>, <<2, 17, 1>>, <<3, 17, 1>>>>
      Inch(n) == Num(IF p.units = 2 THEN (((n * 254) + 50) \div 100) ELSE n)
      x == IF p.exif = <<>> THEN [be |-> TRUE] ELSE p.exif[1]
      \* the last bytes of the header are those of the scan
      scan == Marker(218, <<p.nc>> \o Cat([i \in 1..p.nc |-> <<i, 0>>]) \o <<0, 63, 0>>)
      last == "sos"
  IN [fmt |-> "jpeg",
      slots |-> <<Slot("soi", <<255, 216>>),
                  Slot("app0", Marker(224, Jfif \o <<1, p.minor, p.units>> \o B16(p.dpi) \o B16(p.dpi + 1) \o <<0, 0>>))>>
               \o (IF p.exif = <<>> THEN <<>> ELSE <<Slot("exif", Marker(225, <<69, 120, 105, 102, 0, 0>> \o Exif(x)))>>)
               \o [i \in 1..Len(p.texts) |-> Slot("com" \o Num(i), Marker(254, p.texts[i].b \o <<0>>))]
               \o [i \in 1..Len(dqt) |-> Slot("dqt" \o Num(i), dqt[i])]
               \o <<Slot("sof", Marker(p.sof, <<8>> \o B16(p.h) \o B16(p.w) \o <<p.nc>> \o Cat(SubSeq(comp, 1, p.nc)))),
                    Slot("sos", scan), Slot("data", Fill(30, 19)), Slot("eoi", <<255, 217>>)>>,
      facts |-> {Fact("width", Num(p.w), "sof"), Fact("height", Num(p.h), "sof"), Fact("bits_per_pixel", Num(8 * p.nc), "sof"),
                 Fact("compression", "JPEG (" \o SofName(p.sof) \o ")", "sof"),
                 Fact("pixel_format", IF color THEN "YCbCr" ELSE "Grayscale", "sof"),
                 Fact("format_version", "JFIF 1.0" \o Num(p.minor), "app0"),
                 Fact("comment", "JPEG quality: " \o Num(p.q) \o "%", "dqt" \o Num(Len(dqt)))}
                \cup When(~color, {Fact("nb_colors", "256", "sof")})
                \cup When(p.units > 0, {Fact("width_dpi", Inch(p.dpi), "app0"), Fact("height_dpi", Inch(p.dpi + 1), "app0")})
                \cup {Fact("comment", p.texts[i].s, "com" \o Num(i)) : i \in 1..Len(p.texts)}
                \cup When(p.exif # <<>>,
                          {Fact("title", Ann.s, "exif"), Fact("camera_manufacturer", BobLee.s, "exif"), Fact("camera_model", Cafe.s, "exif"),
                           Fact("image_orientation", Orient(x.orient), "exif"), Fact("producer", X.s, "exif"),
                           Fact("creation_date", Date.s, "exif"), Fact("camera_exposure", "0.25", "exif"),
                           Fact("camera_focal", "2.75", "exif"), Fact("iso_speed_ratings", Num(x.iso), "exif")}
                          \cup When(x.gps, {Fact("latitude", (IF x.south THEN "-" ELSE "") \o "48.51", "exif"),
                                            Fact("longitude", (IF x.south THEN "-" ELSE "") \o "2.25", "exif"),
                                            Fact("altitude", (IF x.south THEN "-" ELSE "") \o "100.5", "exif")}))]
Jpegs == {[w |-> 640, h |-> 17, nc |-> c[1], one |-> c[2], sof |-> s, q |-> q, minor |-> 2, units |-> u, dpi |-> 71, texts |-> <<>>, exif |-> <<>>] :
            c \in {<<3, FALSE>>, <<3, TRUE>>, <<1, FALSE>>}, s \in {192, 193, 194}, q \in {25, 31, 50, 75, 90, 95, 100}, u \in {0, 1, 2}}
         \cup {[w |-> 9, h |-> 4000, nc |-> 3, one |-> FALSE, sof |-> 192, q |-> 85, minor |-> 1, units |-> 1, dpi |-> 72, texts |-> t, exif |-> e] :
            t \in {<<>>, <<Ann>>, <<Dup(Cafe), BobLee>>},
            e \in {<<>>} \cup {<<[be |-> b, orient |-> o, iso |-> 400, gps |-> g[1], south |-> g[2]]>> :
                                b \in BOOLEAN, o \in {1, 3, 6, 8}, g \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>}}}

---------------------------------------------------------------------------
(* Pictures of editors *)
PsdMode(m) == CASE m = 0 -> "Bitmap" [] m = 1 -> "Grayscale" [] m = 2 -> "Indexed" [] m = 3 -> "RGB color" [] OTHER -> "CMYK color"
Psd(p) ==
  [fmt |-> "psd",
   slots |-> <<Slot("head", <<56, 66, 80, 83, 0, 1>> \o Zeros(6) \o B16(p.ch) \o B32(p.h) \o B32(p.w) \o B16(p.depth) \o B16(p.mode)),
               Slot("mode", IF p.mode = 2 THEN B32(768) \o Fill(768, 4) ELSE B32(0)),
               Slot("config", B32(0)), Slot("layers", IF p.layers THEN B32(6) \o Fill(6, 1) ELSE B32(0)),
               Slot("codec", B16(p.codec)), Slot("data", Fill(20, 9))>>,
   facts |-> {Fact("width", Num(p.w), "head"), Fact("height", Num(p.h), "head"), Fact("bits_per_pixel", Num(p.depth * p.ch), "head"),
              Fact("pixel_format", PsdMode(p.mode), "head"),
              Fact("compression", IF p.codec = 0 THEN "Raw data" ELSE "RLE", "codec")}]
Psds == {[w |-> w, h |-> 33, ch |-> c[1], depth |-> c[2], mode |-> c[3], codec |-> k, layers |-> l] :
           w \in {1, 1024}, c \in {<<3, 8, 3>>, <<1, 1, 0>>, <<1, 8, 2>>, <<4, 16, 4>>, <<1, 8, 1>>}, k \in {0, 1}, l \in BOOLEAN}

XcfProp(t, data) == B32(t) \o B32(Len(data)) \o data
GimpComment == <<103, 105, 109, 112, 45, 99, 111, 109, 109, 101, 110, 116>>
XcfCodec(c) == CASE c = 0 -> "None" [] c = 1 -> "RLE" [] c = 2 -> "Zlib" [] OTHER -> "Fractal"
Xcf(p) ==
  [fmt |-> "xcf",
   slots |-> <<Slot("id", <<103, 105, 109, 112, 32, 120, 99, 102, 32>> \o (IF p.v2 THEN <<118, 48, 48, 50>> ELSE <<102, 105, 108, 101>>) \o <<0>>),
               Slot("dims", B32(p.w) \o B32(p.h) \o B32(p.type))>>
            \o (IF p.codec >= 0 THEN <<Slot("codec", XcfProp(17, <<p.codec>>))>> ELSE <<>>)
            \o (IF p.dpi > 0 THEN <<Slot("res", XcfProp(19, F32(p.dpi, 0) \o F32((4 * p.dpi) + 1, 2)))>> ELSE <<>>)
            \o (IF p.text = <<>> THEN <<>>
                ELSE <<Slot("text", XcfProp(21, B32(13) \o GimpComment \o <<0>> \o B32(1) \o B32(Len(p.text[1].b) + 1) \o p.text[1].b \o <<0>>))>>)
            \o <<Slot("props", XcfProp(0, <<>>)), Slot("layers", B32(0) \o B32(0))>>,
   facts |-> {Fact("width", Num(p.w), "dims"), Fact("height", Num(p.h), "dims"),
              Fact("bits_per_pixel", IF p.type = 0 THEN "24" ELSE "8", "dims"),
              Fact("format_version", CASE p.type = 0 -> "RGB" [] p.type = 1 -> "Gray" [] OTHER -> "Indexed", "dims")}
             \cup When(p.codec >= 0, {Fact("compression", XcfCodec(p.codec), "codec")})
             \cup When(p.dpi > 0, {Fact("width_dpi", Num(p.dpi), "res"), Fact("height_dpi", Num(p.dpi), "res")})
             \cup When(p.text # <<>>, {Fact("comment", p.text[1].s, "text")})]
Xcfs == {[v2 |-> v, w |-> w, h |-> 512, type |-> t, codec |-> c, dpi |-> d, text |-> x] :
           v \in BOOLEAN, w \in {1, 800}, t \in {0, 1, 2}, c \in {0 - 1, 0, 1, 2, 3}, d \in {0, 72, 301}, x \in {<<>>, <<BobLee>>}}

\* functions of metafiles: SETBKMODE and SETMAPPERFLAGS (EMF), SETBKMODE (WMF)
EmfFunc(code) == L32(code) \o L32(12) \o L32(1)
Emf(p) ==
  LET desc == IF p.desc THEN Utf16(Ann.b \o <<0>> \o BobLee.b \o <<0, 0>>) ELSE <<>>
      size == 88 + Len(desc)
      funcs == EmfFunc(18) \o EmfFunc(20) \o EmfFunc(18) \o EmfFunc(22)
      eof == L32(14) \o L32(20) \o Zeros(12)
  IN [fmt |-> "emf",
      slots |-> <<Slot("head", L32(1) \o L32(size) \o L32(0) \o L32(0) \o L32(p.w - 1) \o L32(p.h - 1) \o Zeros(8) \o L32(900) \o L32(800)
                              \o <<32, 69, 77, 70>> \o <<0, 0, 1, 0>> \o L32(size + Len(funcs) + 20) \o L32(6) \o L16(1) \o Zeros(2)
                              \o L32(Len(desc) \div 2) \o L32(IF p.desc THEN 88 ELSE 0) \o L32(p.nb) \o L32(p.w) \o L32(p.h) \o L32(320) \o L32(240) \o desc),
                  Slot("funcs", funcs), Slot("eof", eof)>>,
      facts |-> {Fact("width", Num(p.w), "head"), Fact("height", Num(p.h), "head"),
                 Fact("bits_per_pixel", IF p.nb > 0 THEN "8" ELSE "24", "head")}
                \cup When(p.nb > 0, {Fact("nb_colors", Num(p.nb), "head")})
                \cup When(p.desc, {Fact("producer", Ann.s, "head"), Fact("title", BobLee.s, "head")})]
Emfs == {[w |-> w, h |-> 768, nb |-> n, desc |-> d] : w \in {1024, 3}, n \in {0, 16}, d \in BOOLEAN}
WmfFunc(code) == L32(4) \o L16(code) \o L16(1)
Apm(p) ==
  [fmt |-> "apm",
   slots |-> <<Slot("head", <<215, 205, 198, 154>> \o L16(0) \o L16(p.x) \o L16(p.y) \o L16(p.x + p.w) \o L16(p.y + p.h) \o L16(96) \o Zeros(4) \o L16(1)),
               Slot("wmf", L16(1) \o L16(9) \o <<0, 3>> \o L32(9 + 16 + 3) \o L16(0) \o L32(4) \o L16(0)),
               Slot("funcs", WmfFunc(258) \o WmfFunc(259) \o WmfFunc(260) \o WmfFunc(262)), Slot("eof", L32(3) \o L16(0))>>,
   facts |-> {Fact("width", Num(p.w), "head"), Fact("height", Num(p.h), "head"), Fact("bits_per_pixel", "24", "head")}]
Apms == {[w |-> w, h |-> h, x |-> x, y |-> 30] : w \in {100, 2000}, h \in {1, 700}, x \in {0, 7}}

---------------------------------------------------------------------------
(* Movies *)
FlvTag(t, data) == <<t>> \o B24(Len(data)) \o B24(40) \o Zeros(4) \o data
Utf(b) == B16(Len(b)) \o b
AmfNum(k, n, d) == Utf(k) \o <<0>> \o F64(n, d)
AmfText(k, b) == Utf(k) \o <<2>> \o Utf(b)
Duration == <<100, 117, 114, 97, 116, 105, 111, 110>>
Width == <<119, 105, 100, 116, 104>>
Height == <<104, 101, 105, 103, 104, 116>>
FrameRate == <<102, 114, 97, 109, 101, 114, 97, 116, 101>>
Creator == <<99, 114, 101, 97, 116, 111, 114>>
OnMeta == <<111, 110, 77, 101, 116, 97, 68, 97, 116, 97>>
FlvAudioCodec(c) == CASE c = 0 -> "Uncompressed" [] c = 1 -> "ADPCM" [] c = 5 -> "Nellymoser 8kHz mono" [] OTHER -> "Nellymoser"
FlvVideoCodec(c) == CASE c = 2 -> "Sorensen H.263" [] c = 3 -> "Screen video" [] OTHER -> "On2 VP6"
FlvRate(r) == CASE r = 0 -> 5512 [] r = 1 -> 11025 [] r = 2 -> 22050 [] OTHER -> 44100
Half(n) == Num(n \div 2) \o (IF n % 2 = 0 THEN ".0" ELSE ".5")
Flv(p) ==
  LET items == AmfNum(Duration, p.half, 1) \o AmfNum(Width, p.w, 0) \o AmfNum(Height, p.h, 0) \o AmfNum(FrameRate, p.fr, 1) \o AmfText(Creator, BobLee.b)
      meta == FlvTag(18, <<2>> \o Utf(OnMeta) \o <<8>> \o B32(5) \o items \o <<0, 0, 9>>)
      video == FlvTag(9, <<(16 * 1) + p.vc>> \o Fill(11, 3))
      audio == FlvTag(8, <<(16 * p.ac) + (4 * p.rate) + (IF p.wide THEN 2 ELSE 0) + (IF p.stereo THEN 1 ELSE 0)>> \o Fill(9, 7))
      T(n, b) == Slot(n, b \o B32(Len(b)))
      both == IF p.flip THEN <<T("audio", audio), T("video", video)>> ELSE <<T("video", video), T("audio", audio)>>
      last == IF p.flip THEN "video" ELSE "audio"
  IN [fmt |-> "flv",
      slots |-> <<Slot("head", <<70, 76, 86, 1, 5, 0, 0, 0, 9>> \o Zeros(4))>> \o (IF p.meta THEN <<T("meta", meta)>> ELSE <<>>) \o both
               \o <<T("more", video)>>,
      facts |-> {Fact("format_version", "Macromedia Flash video version 1", "head"),
                 InGroup("video", 0, "compression", FlvVideoCodec(p.vc), "video"),
                 InGroup("audio", 0, "compression", FlvAudioCodec(p.ac), "audio"),
                 InGroup("audio", 0, "sample_rate", Num(FlvRate(p.rate)), "audio"),
                 InGroup("audio", 0, "bits_per_sample", IF p.wide THEN "16" ELSE "8", "audio"),
                 InGroup("audio", 0, "nb_channel", IF p.stereo THEN "2" ELSE "1", "audio")}
                \cup When(p.meta, {Fact("duration", Num(p.half * 500), "meta"), Fact("width", Num(p.w), "meta"), Fact("height", Num(p.h), "meta"),
                                   Fact("frame_rate", Half(p.fr), "meta"), Fact("producer", BobLee.s, "meta")})]
Flvs == {[meta |-> m, flip |-> f, half |-> h, w |-> 320, h |-> 241, fr |-> r, vc |-> c[1], ac |-> c[2], rate |-> c[3], wide |-> c[4], stereo |-> c[5]] :
           m \in BOOLEAN, f \in BOOLEAN, h \in {20, 7201}, r \in {50, 25},
           c \in {<<2, 0, 3, TRUE, TRUE>>, <<3, 1, 2, TRUE, FALSE>>, <<4, 6, 1, FALSE, TRUE>>, <<2, 5, 0, FALSE, FALSE>>}}

Swf(p) ==
  LET rect == BitsOf(p.nbits, 5) \o BitsOf(0, p.nbits) \o BitsOf(p.w, p.nbits) \o BitsOf(0, p.nbits) \o BitsOf(p.h, p.nbits)
      body == <<Slot("rect", Pack(rect \o Zeros((8 - (Len(rect) % 8)) % 8))), Slot("rate", <<p.frac, p.rate>>), Slot("count", L16(p.count)),
                Slot("color", L16((9 * 64) + 3) \o <<255, 0, 9>>), Slot("show", L16(64)), Slot("end", L16(0))>>
  IN [fmt |-> "swf",
      slots |-> <<Slot("head", <<70, 87, 83, p.ver>> \o L32(8 + Size(body)))>> \o body,
      facts |-> {Fact("width", Num(p.w), "rect"), Fact("height", Num(p.h), "rect"), Fact("format_version", "flash version " \o Num(p.ver), "rect"),
                 Fact("frame_rate", Num(p.rate) \o (CASE p.frac = 0 -> ".0" [] p.frac = 128 -> ".5" [] OTHER -> ".25"), "rate"),
                 Fact("comment", "Frame count: " \o Num(p.count), "count")}]
Swfs == {[ver |-> v, nbits |-> n, w |-> 11000, h |-> 8000, rate |-> 12, frac |-> f, count |-> c] :
           v \in {1, 6, 9}, n \in {14, 15, 16, 17}, f \in {0, 128, 64}, c \in {1, 300}}

---------------------------------------------------------------------------
(* Torrents: dictionaries of texts and numbers *)
Ben(b) == Digits(Len(b)) \o <<58>> \o b
BenInt(n) == <<105>> \o Digits(n) \o <<101>>
Url == Word("http://t.example/announce", <<104, 116, 116, 112, 58, 47, 47, 116, 46, 101, 120, 97, 109, 112, 108, 101, 47, 97, 110, 110, 111, 117, 110, 99, 101>>)
Announce == <<97, 110, 110, 111, 117, 110, 99, 101>>
TComment == <<99, 111, 109, 109, 101, 110, 116>>
CreationDate == <<99, 114, 101, 97, 116, 105, 111, 110, 32, 100, 97, 116, 101>>
Info == <<105, 110, 102, 111>>
Length == <<108, 101, 110, 103, 116, 104>>
TName == <<110, 97, 109, 101>>
PieceLength == <<112, 105, 101, 99, 101, 32>> \o Length
Pieces == <<112, 105, 101, 99, 101, 115>>
Torrent(p) ==
  LET info == Ben(Info) \o <<100>> \o (IF p.len > 0 THEN Ben(Length) \o BenInt(p.len) ELSE <<>>) \o Ben(TName) \o Ben(Cafe.b)
              \o Ben(PieceLength) \o BenInt(1024 * p.piece) \o Ben(Pieces) \o Ben(Fill(40, 200)) \o <<101>>
  IN [fmt |-> "torrent",
      slots |-> <<Slot("url", <<100>> \o Ben(Announce) \o Ben(Url.b))>>
               \o (IF p.text = <<>> THEN <<>> ELSE <<Slot("comment", Ben(TComment) \o Ben(p.text[1].b))>>)
               \o (IF p.date THEN <<Slot("date", Ben(CreationDate) \o BenInt(1000000000))>> ELSE <<>>)
               \o <<Slot("info", info), Slot("end", <<101>>)>>,
      facts |-> {Fact("url", Url.s, "url"), Fact("filename", Cafe.s, "info"),
                 Fact("comment", "Piece length: " \o Num(p.piece) \o ".0 KB", "info")}
                \cup When(p.len > 0, {Fact("file_size", Num(p.len), "info")})
                \cup When(p.text # <<>>, {Fact("comment", p.text[1].s, "comment")})
                \cup When(p.date, {Fact("creation_date", "2001-09-09 01:46:40", "date")})]
Torrents == {[text |-> t, date |-> d, len |-> l, piece |-> k] : t \in {<<>>, <<BobLee>>, <<Dup(Cafe)>>}, d \in BOOLEAN, l \in {0, 7, 123456789}, k \in {16, 256}}

---------------------------------------------------------------------------
(* Archives *)
Bzip2(p) ==
  [fmt |-> "bzip2",
   slots |-> <<Slot("head", <<66, 90, 104, 48 + p.level>>), Slot("data", <<49, 65, 89, 38, 83, 89>> \o Fill(p.n - 6, 77))>>,
   facts |-> {Fact("compr_size", Num(p.n), "data")}]
Bzip2s == {[level |-> l, n |-> n] : l \in {1, 9}, n \in {20, 300}}

Mar(p) ==
  LET n == Len(p.files)
      f(i) == p.files[i]
      RECURSIVE At(_)
      At(i) == IF i = 1 THEN 12 + 68 * n ELSE At(i - 1) + f(i - 1).size
  IN [fmt |-> "mar",
      slots |-> <<Slot("head", <<77, 65, 82, 67>> \o L32(3) \o L32(n))>>
               \o [i \in 1..n |-> Slot("entry" \o Num(i), Padded(f(i).name, 56) \o L32(f(i).size) \o L32(7 * i) \o L32(At(i)))]
               \o Cat([i \in 1..n |-> IF f(i).size > 0 THEN <<Slot("data" \o Num(i), Fill(f(i).size, 100))>> ELSE <<>>]),
      facts |-> {Fact("comment", "Contains " \o Num(n) \o " files", "head"), Fact("format_version", "Microsoft Archive version 3", "head")}
                \cup UNION {{InGroup("file[" \o Num(i - 1) \o "]", i - 1, "filename", f(i).name.s, "entry" \o Num(i)),
                             InGroup("file[" \o Num(i - 1) \o "]", i - 1, "compression", "None", "entry" \o Num(i)),
                             InGroup("file[" \o Num(i - 1) \o "]", i - 1, "file_size", Num(f(i).size), "entry" \o Num(i))} : i \in 1..n}]
Mars == {[files |-> s] : s \in {<<TarFiles[1]>>, <<TarFiles[2], TarFiles[1]>>, TarFiles, Number(TarFiles, 12)}}

---------------------------------------------------------------------------
More == {"tiff", "tiffbe", "jpeg", "psd", "xcf", "emf", "apm", "flv", "swf", "torrent", "bzip2", "mar"}
MoreDocs(f) ==
  CASE f = "tiff" -> {Tiff(p) : p \in {p \in Tiffs : ~p.be}} [] f = "tiffbe" -> {Tiff(p) : p \in {p \in Tiffs : p.be}}
    [] f = "jpeg" -> {Jpeg(p) : p \in Jpegs} [] f = "psd" -> {Psd(p) : p \in Psds} [] f = "xcf" -> {Xcf(p) : p \in Xcfs}
    [] f = "emf" -> {Emf(p) : p \in Emfs} [] f = "apm" -> {Apm(p) : p \in Apms} [] f = "flv" -> {Flv(p) : p \in Flvs}
    [] f = "swf" -> {Swf(p) : p \in Swfs} [] f = "torrent" -> {Torrent(p) : p \in Torrents}
    [] f = "bzip2" -> {Bzip2(p) : p \in Bzip2s} [] OTHER -> {Mar(p) : p \in Mars}
MoreMime(f) == CASE f \in {"tiff", "tiffbe"} -> "image/tiff" [] f = "jpeg" -> "image/jpeg" [] f = "psd" -> "image/psd" [] f = "xcf" -> "image/x-xcf"
                 [] f = "emf" -> "image/x-emf" [] f = "apm" -> "image/wmf" [] f = "flv" -> "video/x-flv" [] f = "swf" -> "application/x-shockwave-flash"
                 [] f = "torrent" -> "application/x-bittorrent" [] f = "bzip2" -> "application/x-bzip2" [] OTHER -> "application/octet-stream"
MoreBigEndian == {"tiffbe", "jpeg", "psd", "xcf", "flv", "bzip2"}

AllDocs(f) == IF f \in Formats THEN Docs(f) ELSE MoreDocs(f)
AllMime(f) == IF f \in Formats THEN Mime(f) ELSE MoreMime(f)
AllBigEndian == BigEndian \cup MoreBigEndian
=============================================================================
