----------------------------- MODULE MediaFacts -----------------------------
(***************************************************************************)
(* Sounds and movies which say something about themselves (see Facts): Ogg   *)
(* with Vorbis and Theora, Matroska and WebM, MP4 and QuickTime, AVI, Real    *)
(* audio and media, MPEG audio with ID3 tags.                               *)
(***************************************************************************)
EXTENDS MoreFacts

\* a fact of the group g
Of(g, k, v, after) == InGroup(g, 0, k, v, after)
\* a number of thousandths which are not a whole number are not generated
Ms(n) == Num(n)

---------------------------------------------------------------------------
(* Ogg: pages of several streams *)
Page(flags, granule, serial, n, segs) ==
  <<79, 103, 103, 83>> \o <<0, flags>> \o L64(granule) \o L32(serial) \o L32(n) \o Zeros(4) \o <<Len(segs)>>
  \o [i \in 1..Len(segs) |-> Len(segs[i])] \o Cat(segs)
VorbisHead(p) == <<1>> \o <<118, 111, 114, 98, 105, 115>> \o L32(0) \o <<p.ch>> \o L32(p.rate) \o L32(0) \o L32(p.bps) \o L32(0) \o <<184, 1>>
TheoraHead(p) ==
  <<128>> \o <<116, 104, 101, 111, 114, 97>> \o <<3, 2, 1>> \o B16(p.w \div 16) \o B16(p.h \div 16) \o B24(p.w) \o B24(p.h) \o <<0, 0>>
  \o B32(p.fps * 1000) \o B32(1000) \o B24(p.aspect) \o B24(2) \o <<0>> \o B24(0)
  \o Pack(BitsOf(p.quality, 6) \o BitsOf(6, 5) \o BitsOf(p.pix, 2) \o BitsOf(0, 3))
OggKey(k) == CASE k = "title" -> <<84, 73, 84, 76, 69, 61>> [] k = "artist" -> <<97, 114, 116, 105, 115, 116, 61>> [] k = "album" -> <<65, 108, 98, 117, 109, 61>> [] k = "music_genre" -> <<71, 69, 78, 82, 69, 61>>
               [] k = "music_composer" -> <<67, 79, 77, 80, 79, 83, 69, 82, 61>> [] k = "url" -> <<87, 87, 87, 61>> [] k = "copyright" -> <<76, 73, 67, 69, 78, 83, 69, 61>>
               [] k = "organization" -> <<79, 82, 71, 65, 78, 73, 90, 65, 84, 73, 79, 78, 61>> [] k = "location" -> <<76, 79, 67, 65, 84, 73, 79, 78, 61>> [] OTHER -> <<68, 69, 83, 67, 82, 73, 80, 84, 73, 79, 78, 61>>
OggComment(tags) == LText(BobLee.b) \o L32(Len(tags)) \o Cat([i \in 1..Len(tags) |-> LText(OggKey(tags[i][1]) \o tags[i][2].b)])
OggTags(tags, after) == {Fact("producer", BobLee.s, after)} \cup {Fact(tags[i][1], tags[i][2].s, after) : i \in 1..Len(tags)}
PixName(x) == CASE x = 0 -> "4:2:0" [] x = 2 -> "4:2:2" [] OTHER -> "4:4:4"
VorbisFacts(p, after) ==
  LET g == "audio[1]"
  IN {Of(g, "compression", "Vorbis", after), Of(g, "sample_rate", Num(p.rate), after), Of(g, "nb_channel", Num(p.ch), after),
      Of(g, "format_version", "Vorbis version 0", after), Of(g, "bit_rate", Num(p.bps), after)}
Ogg(p) ==
  LET data(n, flags) == Page(flags, IF flags = 0 THEN 5000 ELSE p.rate * 3, 77, n, <<Fill(90, 65), Fill(7, 66)>>)
      setup == <<5>> \o <<118, 111, 114, 98, 105, 115>> \o Fill(30, 67)
  IN [fmt |-> "oggvorbis",
      slots |-> <<Slot("head", Page(2, 0, 77, 0, <<VorbisHead(p)>>)),
                  Slot("comment", Page(0, 0, 77, 1, <<<<3>> \o <<118, 111, 114, 98, 105, 115>> \o OggComment(p.tags) \o <<1>>, setup>>))>>
               \o [i \in 1..p.pages |-> Slot("data" \o Num(i), data(1 + i, 0))]
               \o <<Slot("last", data(p.pages + 2, p.last))>>,
      facts |-> VorbisFacts(p, "head") \cup OggTags(p.tags, "comment") \cup {Fact("duration", "3000", "last")}]
Oggs == {[ch |-> c, rate |-> r, bps |-> b, tags |-> t, pages |-> n, last |-> l] :
           c \in {1, 2}, r \in {22050, 44100}, b \in {64000, 128001}, n \in {0, 3}, l \in {4, 5},
           t \in {<<>>, <<<<"title", Ann>>, <<"comment", Cafe>>>>,
                  <<<<"artist", BobLee>>, <<"album", X>>, <<"music_genre", Ann>>, <<"music_composer", Cafe>>, <<"url", X>>,
                    <<"copyright", Ann>>, <<"organization", BobLee>>, <<"location", Cafe>>>>}}
Ogv(p) ==
  LET g == "video[1]"
  IN [fmt |-> "oggtheora",
      slots |-> <<Slot("video", Page(2, 0, 5, 0, <<TheoraHead(p)>>)), Slot("audio", Page(2, 0, 77, 0, <<VorbisHead(p)>>)),
                  Slot("comment", Page(0, 0, 5, 1, <<<<129>> \o <<116, 104, 101, 111, 114, 97>> \o OggComment(p.tags)>>)),
                  Slot("more", Page(0, 0, 77, 1, <<<<3>> \o <<118, 111, 114, 98, 105, 115>> \o OggComment(<<<<"copyright", X>>>>) \o <<1>>>>)),
                  Slot("data", Page(0, 9, 5, 2, <<Fill(60, 9)>>)), Slot("last", Page(4, p.rate * 2, 77, 2, <<Fill(9, 9)>>))>>,
      facts |-> VorbisFacts(p, "audio")
                \cup {Of(g, "compression", "Theora", "video"), Of(g, "format_version", "Theora version 3.2 (revision 1)", "video"),
                      Of(g, "width", Num(p.w), "video"), Of(g, "height", Num(p.h), "video"), Of(g, "frame_rate", Num(p.fps) \o ".0", "video"),
                      Of(g, "aspect_ratio", Num(p.aspect \div 2) \o (IF p.aspect % 2 = 0 THEN ".0" ELSE ".5"), "video"),
                      Of(g, "pixel_format", PixName(p.pix), "video"), Of(g, "comment", "Quality: " \o Num(p.quality), "video")}
                \cup OggTags(p.tags, "comment") \cup OggTags(<<<<"copyright", X>>>>, "more") \cup {Fact("duration", "2000", "last")}]
Ogvs == {[ch |-> 2, rate |-> 48000, bps |-> 96000, tags |-> t, w |-> w, h |-> 241, fps |-> f, aspect |-> a, quality |-> q, pix |-> x] :
           w \in {320, 66}, f \in {25, 30}, a \in {1, 2, 3}, q \in {0, 63}, x \in {0, 2, 3}, t \in {<<<<"title", Ann>>>>}}

---------------------------------------------------------------------------
(* Matroska: elements in elements.  w: the number of bytes of the sizes     *)
Sized(n, w) == CASE w = 1 -> <<128 + n>> [] w = 2 -> <<64 + (n \div 256), n % 256>> [] w = 4 -> <<16>> \o B24(n) [] OTHER -> <<1>> \o Zeros(3) \o B32(n)
El(id, data, w) == id \o Sized(Len(data), IF Len(data) >= 127 /\ w = 1 THEN 2 ELSE w) \o data
MkvHead(p) == El(<<26, 69, 223, 163>>, El(<<66, 134>>, <<1>>, 1) \o El(<<66, 130>>, IF p.webm THEN <<119, 101, 98, 109>> ELSE <<109, 97, 116, 114, 111, 115, 107, 97>>, 1) \o El(<<66, 135>>, <<2>>, 1), p.w)
\* nanoseconds from the beginning of the millennium to 2010-11-30 23:59:58
MkvDate == <<4, 87, 123, 106, 219, 53, 108, 0>>
MkvTrack(t, w) ==
  El(<<174>>, El(<<215>>, <<t.nb>>, w) \o El(<<131>>, <<t.type>>, w)
              \o (IF t.name = <<>> THEN <<>> ELSE El(<<83, 110>>, t.name[1].b, w))
              \o (IF t.lang = "" THEN <<>> ELSE El(<<34, 181, 156>>, IF t.lang = "fre" THEN <<102, 114, 101>> ELSE <<117, 110, 100>>, w))
              \o El(<<134>>, IF t.type = 1 THEN <<86, 95, 77, 80, 69, 71, 52>> ELSE IF t.type = 2 THEN <<65, 95, 86, 79, 82, 66, 73, 83>> ELSE <<83, 95, 84, 69, 88, 84, 47, 85, 84, 70, 56>>, w)
              \o (CASE t.type = 1 -> El(<<224>>, El(<<176>>, B16(t.a), w) \o El(<<186>>, B16(t.b), w), w)
                    [] t.type = 2 -> El(<<225>>, El(<<181>>, IF t.wide THEN F64(t.a, 0) ELSE F32(t.a, 0), w) \o El(<<159>>, <<t.b>>, w)
                                                \o El(<<98, 100>>, <<16>>, w), w)
                    [] OTHER -> <<>>), w)
LangName(l) == CASE l = "fre" -> "French" [] l = "und" -> "Undetermined" [] OTHER -> "English"
TrackGroup(ts, i) == LET same == Cardinality({j \in 1..i : ts[j].type = ts[i].type})
                     IN (CASE ts[i].type = 1 -> "video[" [] ts[i].type = 2 -> "audio[" [] OTHER -> "subtitle[") \o Num(same) \o "]"
TrackFacts(ts, i) ==
  LET t == ts[i]
      g == TrackGroup(ts, i)
      s == "track" \o Num(i)
  IN {Of(g, "language", LangName(t.lang), s),
      Of(g, "compression", IF t.type = 1 THEN "V_MPEG4" ELSE IF t.type = 2 THEN "A_VORBIS" ELSE "S_TEXT/UTF8", s)}
     \cup When(t.name # <<>>, {Of(g, "title", t.name[1].s, s)})
     \cup When(t.type = 1, {Of(g, "width", Num(t.a), s), Of(g, "height", Num(t.b), s)})
     \cup When(t.type = 2, {Of(g, "sample_rate", Num(t.a) \o ".0", s), Of(g, "nb_channel", Num(t.b), s), Of(g, "bits_per_sample", "16", s)})
MkvTags(p) == El(<<18, 84, 195, 103>>, El(<<115, 115>>, El(<<103, 200>>, El(<<69, 163>>, <<84, 73, 84, 76, 69>>, 1) \o El(<<68, 135>>, Cafe.b, 1), 1)
                                                       \o El(<<103, 200>>, El(<<69, 163>>, <<67, 79, 80, 89, 82, 73, 71, 72, 84>>, 1) \o El(<<68, 135>>, X.b, 1), 1), p.w), p.w)
Mkv(p) ==
  LET w == p.w
      date == IF p.date THEN El(<<68, 97>>, MkvDate, w) ELSE <<>>
      info == El(<<21, 73, 169, 102>>, El(<<42, 215, 177>>, B24(1000000), w) \o El(<<68, 137>>, IF p.wide THEN F64(p.ms, 0) ELSE F32(p.ms, 0), w) \o date
                                       \o (IF p.title = <<>> THEN <<>> ELSE El(<<123, 169>>, p.title[1].b, w))
                                       \o El(<<77, 128>>, Ann.b, w) \o El(<<87, 65>>, BobLee.b, w), w)
      tracks == [i \in 1..Len(p.tracks) |-> MkvTrack(p.tracks[i], w)]
      n == Len(Cat(tracks))
      cluster == El(<<31, 67, 182, 117>>, El(<<231>>, <<0>>, w) \o El(<<163>>, <<129, 0, 0, 128>> \o Fill(20, 7), w), w)
      tags == IF p.tags = "no" THEN <<>> ELSE <<Slot("tags", MkvTags(p))>>
      body == <<Slot("info", info), Slot("tracks", <<22, 84, 174, 107>> \o Sized(n, IF n >= 127 /\ w = 1 THEN 2 ELSE w))>>
              \o [i \in 1..Len(tracks) |-> Slot("track" \o Num(i), tracks[i])]
              \o (IF p.tags = "before" THEN tags ELSE <<>>) \o <<Slot("cluster", cluster)>> \o (IF p.tags = "after" THEN tags ELSE <<>>)
  IN [fmt |-> IF p.webm THEN "webm" ELSE "mkv",
      slots |-> <<Slot("head", MkvHead(p)), Slot("segment", <<24, 83, 128, 103>> \o (IF p.live THEN <<255>> ELSE Sized(Size(body), 4)))>> \o body,
      facts |-> {Fact("duration", Ms(p.ms), "info"), Fact("producer", Ann.s, "info"), Fact("producer", BobLee.s, "info")}
                \cup When(p.date, {Fact("creation_date", "2010-11-30 23:59:58", "info")})
                \cup When(p.title # <<>>, {Fact("title", p.title[1].s, "info")})
                \cup UNION {TrackFacts(p.tracks, i) : i \in 1..Len(p.tracks)}
                \* number 1: behind the clusters
                \cup When(p.tags # "no", {InGroup("", IF p.tags = "after" THEN 1 ELSE 0, "title", Cafe.s, "tags"),
                                          InGroup("", IF p.tags = "after" THEN 1 ELSE 0, "copyright", X.s, "tags")})]
VideoTrack(n, a, b, name) == [nb |-> n, type |-> 1, name |-> name, lang |-> "", a |-> a, b |-> b, wide |-> FALSE]
AudioTrack(n, a, b, lang, wide) == [nb |-> n, type |-> 2, name |-> <<>>, lang |-> lang, a |-> a, b |-> b, wide |-> wide]
TextTrack(n, lang, name) == [nb |-> n, type |-> 17, name |-> name, lang |-> lang, a |-> 0, b |-> 0, wide |-> FALSE]
MkvTracks == {<<VideoTrack(1, 640, 480, <<>>)>>, <<AudioTrack(1, 44100, 2, "fre", TRUE), VideoTrack(2, 1920, 800, <<Cafe>>)>>,
              <<VideoTrack(1, 320, 241, <<>>), AudioTrack(2, 48000, 6, "", FALSE), AudioTrack(3, 22050, 1, "fre", FALSE),
                TextTrack(4, "fre", <<Ann>>), TextTrack(5, "", <<>>)>>}
Mkvs == {[webm |-> b, w |-> w, live |-> l, wide |-> d, ms |-> 6500, date |-> d, title |-> t, tracks |-> k, tags |-> g] :
           b \in BOOLEAN, w \in {1, 2, 4, 8}, l \in BOOLEAN, d \in BOOLEAN, t \in {<<>>, <<Ann>>}, k \in MkvTracks, g \in {"no", "before", "after"}}

---------------------------------------------------------------------------
(* MP4 and QuickTime: atoms *)
Atom(tag, data) == B32(8 + Len(data)) \o tag \o data
Atom64(tag, data) == B32(1) \o tag \o B64(16 + Len(data)) \o data
\* 2001-09-09 01:46:40 and 2010-11-30 23:59:58, seconds since 1904
Mac1 == <<183, 192, 122, 128>>
Mac2 == <<201, 27, 64, 126>>
Matrix == B16(1) \o Zeros(14) \o B16(1) \o Zeros(14) \o <<64, 0, 0, 0>>
Times(v) == IF v = 0 THEN Mac1 \o Mac2 ELSE Zeros(4) \o Mac1 \o Zeros(4) \o Mac2
Long64(v, n) == IF v = 0 THEN B32(n) ELSE B64(n)
Mvhd(p) == Atom(<<109, 118, 104, 100>>, <<p.v, 0, 0, 0>> \o Times(p.v) \o B32(600) \o Long64(p.v, 600 * p.sec) \o B16(p.speed \div 2) \o <<IF p.speed % 2 = 0 THEN 0 ELSE 128, 0>>
                        \o <<p.volume \div 4, 64 * (p.volume % 4)>> \o Zeros(10) \o Matrix \o Zeros(24) \o B32(3))
Tkhd(p, id, w, h) == Atom(<<116, 107, 104, 100>>, <<p.v, 0, 0, 15>> \o Times(p.v) \o B32(id) \o Zeros(4) \o Long64(p.v, 600) \o Zeros(8) \o Zeros(4)
                                  \o <<1, 0>> \o Zeros(2) \o Matrix \o B16(w) \o B16(0) \o B16(h) \o B16(0))
Percent(n, d) == LET x == (1000 * n) \div d IN Num(x \div 10) \o "." \o Num(x % 10) \o "%"
Mp4(p) ==
  LET video == Atom(<<116, 114, 97, 107>>, Tkhd(p, 1, p.w, p.h))
      audio == Atom(<<116, 114, 97, 107>>, Tkhd(p, 2, 0, 0))
      tracks == IF p.flip THEN <<Slot("audio", audio), Slot("video", video)>> ELSE <<Slot("video", video), Slot("audio", audio)>>
      ftyp == Slot("ftyp", Atom(<<102, 116, 121, 112>>, (IF p.mov THEN <<113, 116, 32, 32>> ELSE p.brand) \o B32(512) \o (IF p.mov THEN <<113, 116, 32, 32>> ELSE <<120, 120, 120, 120, 105, 115, 111, 109>>)))
      moov == <<Slot("moov", B32(8 + Len(Mvhd(p)) + Size(tracks)) \o <<109, 111, 111, 118>>), Slot("mvhd", Mvhd(p))>> \o tracks
      data == Slot("mdat", IF p.wide THEN Atom64(<<109, 100, 97, 116>>, Fill(40, 7)) ELSE IF p.last THEN B32(0) \o <<109, 100, 97, 116>> \o Fill(40, 7) ELSE Atom(<<109, 100, 97, 116>>, Fill(40, 7)))
  IN [fmt |-> IF p.mov THEN "mov" ELSE "mp4",
      slots |-> <<ftyp>> \o (IF p.last THEN moov \o <<data>> ELSE <<data>> \o moov),
      facts |-> {Fact("creation_date", "2001-09-09 01:46:40", "mvhd"), Fact("last_modification", "2010-11-30 23:59:58", "mvhd"),
                 Fact("duration", Num(p.sec * 1000), "mvhd"), Fact("comment", "Play speed: " \o Percent(p.speed, 2), "mvhd"),
                 Fact("comment", "User volume: " \o Percent(p.volume, 4), "mvhd"),
                 Fact("width", Num(p.w), "video"), Fact("height", Num(p.h), "video")}]
Mp4s == {[mov |-> m[1], brand |-> m[2], v |-> v, sec |-> s, speed |-> x, volume |-> 3, w |-> 640, h |-> h, flip |-> f, wide |-> w, last |-> l] :
           m \in {<<TRUE, <<>>>>, <<FALSE, <<109, 112, 52, 50>>>>, <<FALSE, <<100, 97, 115, 104>>>>}, v \in {0, 1}, s \in {1, 5000}, x \in {1, 2, 4}, h \in {479, 2},
           f \in BOOLEAN, w \in BOOLEAN, l \in BOOLEAN}

---------------------------------------------------------------------------
(* AVI *)
RiffList(tag, data) == Riff(<<76, 73, 83, 84>>, tag \o data)
Avih(p) == Riff(<<97, 118, 105, 104>>, L32(p.us) \o Zeros(8) \o L32(16) \o L32(p.frames) \o L32(0) \o L32(2) \o L32(0) \o L32(p.w) \o L32(p.h) \o Zeros(16))
Strh(type, fourcc, scale, rate, length, w, h) ==
  Riff(<<115, 116, 114, 104>>, type \o fourcc \o Zeros(12) \o L32(scale) \o L32(rate) \o L32(0) \o L32(length) \o Zeros(12) \o Zeros(4) \o L16(w) \o L16(h))
Strf(p) == Riff(<<115, 116, 114, 102>>, L32(40) \o L32(p.w) \o L32(p.h) \o L16(1) \o L16(p.depth) \o Zeros(24))
Wavf(p) == Riff(<<115, 116, 114, 102>>, L16(p.codec) \o L16(p.ch) \o L32(p.rate) \o L32(p.bytes) \o L16(1) \o L16(p.bits) \o (IF p.ext THEN L16(0) ELSE <<>>))
AviCodec(c) == IF c = 1 THEN "Microsoft Pulse Code Modulation (PCM)" ELSE "MPEG Layer 3"
Avi(p) ==
  LET video == RiffList(<<115, 116, 114, 108>>, Strh(<<118, 105, 100, 115>>, IF p.xvid THEN <<88, 86, 73, 68>> ELSE <<100, 105, 118, 120>>, 1, p.fps, p.frames, p.w, p.h) \o Strf(p))
      audio == RiffList(<<115, 116, 114, 108>>, Strh(<<97, 117, 100, 115>>, IF p.four THEN <<109, 112, 51, 32>> ELSE Zeros(4), 2, 2 * p.rate, p.rate * 4, 0, 0) \o Wavf(p))
      second == RiffList(<<115, 116, 114, 108>>, Strh(<<97, 117, 100, 115>>, Zeros(4), 1, 1000, 2500, 0, 0) \o Wavf([p EXCEPT !.ch = 1, !.codec = 1]))
      streams == (IF p.flip THEN <<Slot("audio", audio), Slot("video", video)>> ELSE <<Slot("video", video), Slot("audio", audio)>>)
                 \o (IF p.two THEN <<Slot("second", second)>> ELSE <<>>)
      hdrl == <<Slot("hdrl", <<76, 73, 83, 84>> \o L32(4 + Len(Avih(p)) + Size(streams)) \o <<104, 100, 114, 108>>), Slot("avih", Avih(p))>> \o streams
      info == Slot("info", RiffList(<<73, 78, 70, 79>>, Riff(<<73, 78, 65, 77>>, Ann.b \o <<0>>) \o Riff(<<73, 83, 70, 84>>, BobLee.b \o <<0>>) \o Riff(<<73, 67, 77, 84>>, Dup(Cafe).b)))
      movi == Slot("movi", RiffList(<<109, 111, 118, 105>>, Riff(<<48, 48, 100, 99>>, Fill(20, 7)) \o Riff(<<48, 49, 119, 98>>, Fill(16, 8))))
      index == Slot("index", Riff(<<105, 100, 120, 49>>, <<48, 48, 100, 99>> \o Zeros(4) \o L32(4) \o L32(20) \o <<48, 49, 119, 98>> \o Zeros(4) \o L32(32) \o L32(16)))
      body == hdrl \o (IF p.info THEN <<info>> ELSE <<>>) \o <<movi>> \o (IF p.index THEN <<index>> ELSE <<>>)
      ms == (p.frames * 1000) \div p.fps
      codec == AviCodec(p.codec) \o (IF p.four THEN " (fourcc:\"mp3\")" ELSE "")
  IN [fmt |-> "avi",
      slots |-> <<Slot("riff", <<82, 73, 70, 70>> \o L32(4 + Size(body)) \o <<65, 86, 73, 32>>)>> \o body,
      facts |-> {Of("video", "compression", IF p.xvid THEN "XviD MPEG-4 (fourcc:\"XVID\")" ELSE "DivX v4 (fourcc:\"divx\")", "video"),
                 Of("video", "frame_rate", Num(p.fps) \o ".0", "video"), Of("video", "duration", Num(ms), "video"),
                 Of("video", "width", Num(p.w), "video"), Of("video", "height", Num(p.h), "video"),
                 Of("video", "bits_per_pixel", Num(p.depth), "video"),
                 Of("audio[1]", "nb_channel", Num(p.ch), "audio"), Of("audio[1]", "sample_rate", Num(p.rate), "audio"),
                 Of("audio[1]", "bit_rate", Num(8 * p.bytes), "audio"),
                 Of("audio[1]", "duration", "4000", "audio"), Of("audio[1]", "compression", codec, "audio"),
                 Fact("frame_rate", Num(1000000 \div p.us) \o ".0", "avih"), Fact("width", Num(p.w), "avih"), Fact("height", Num(p.h), "avih"),
                 Fact("duration", Num(ms), "video"), Fact("bit_rate", Num(448000 \div ms) \o ".0", "movi")}
                \cup When(p.bits > 0, {Of("audio[1]", "bits_per_sample", Num(p.bits), "audio")})
                \cup When(p.two, {Of("audio[2]", "nb_channel", "1", "second"), Of("audio[2]", "sample_rate", Num(p.rate), "second"),
                                  Of("audio[2]", "bit_rate", Num(8 * p.bytes), "second"), Of("audio[2]", "duration", "2500", "second"),
                                  Of("audio[2]", "compression", AviCodec(1), "second")}
                                  \cup When(p.bits > 0, {Of("audio[2]", "bits_per_sample", Num(p.bits), "second")}))
                \cup When(p.info, {Fact("title", Ann.s, "info"), Fact("producer", BobLee.s, "info"), Fact("comment", Dup(Cafe).s, "info")})
                \cup When(p.index, {Fact("comment", "Has audio/video index (40 bytes)", "index")})]
Avis == {[us |-> 40000, frames |-> n, w |-> 720, h |-> h, fps |-> 25, depth |-> 24, xvid |-> x, codec |-> a[1], ch |-> a[2], rate |-> a[3], bytes |-> a[4],
          bits |-> a[5], ext |-> a[6], four |-> a[7], flip |-> f, two |-> t, info |-> i, index |-> k] :
           n \in {100, 50}, h \in {300, 19}, x \in BOOLEAN,
           a \in {<<1, 2, 44100, 176400, 16, FALSE, FALSE>>, <<85, 2, 48000, 16000, 0, TRUE, TRUE>>, <<85, 1, 22050, 7000, 0, TRUE, FALSE>>},
           f \in BOOLEAN, t \in BOOLEAN, i \in BOOLEAN, k \in BOOLEAN}

---------------------------------------------------------------------------
(* Real audio and media *)
P8(b) == <<Len(b)>> \o b
RaText == P8(Ann.b) \o P8(BobLee.b) \o P8(Cafe.b) \o P8(X.b)
RaFour(c) == CASE c = 0 -> <<108, 112, 99, 74>> [] c = 1 -> <<50, 56, 95, 56>> [] c = 2 -> <<49, 52, 95, 52>> [] OTHER -> <<100, 110, 101, 116>>
RaName(c) == CASE c = 0 -> "lpcJ" [] c = 1 -> "28_8" [] c = 2 -> "14_4" [] OTHER -> "dnet"
RaRate(c) == CASE c = 1 -> 15200 [] c = 3 -> 0 [] OTHER -> 8000
Ra(p) ==
  LET four == P8(RaFour(p.codec))
      n == (RaRate(p.codec) \div 80) + (IF p.codec = 3 THEN 90 ELSE 0)      \* bytes of 100 milliseconds
      said(s) == {Fact("title", Ann.s, s), Fact("author", BobLee.s, s), Fact("copyright", Cafe.s, s), Fact("comment", X.s, s)}
      kind(s) == {Fact("format_version", "Real audio version " \o Num(p.ver), s), Fact("bits_per_sample", "16", s),
                  Fact("compression", RaName(p.codec), s)}
                 \cup When(p.codec # 3, {Fact("bit_rate", Num(RaRate(p.codec)), s)})
      length(s) == When(p.codec # 3, {Fact("duration", "100", s)})
      mid == B16(p.flavor) \o B32(240) \o Zeros(12) \o Zeros(8) \o B16(p.rate) \o B16(0) \o B16(16) \o B16(p.ch) \o P8(<<73, 110, 116, 48>>) \o four \o Zeros(3) \o RaText
      \* bytes behind the sizes of the file and of the header
      h == 24 + Len(mid) - 16
  IN IF p.ver = 3
     THEN [fmt |-> "ra",
           slots |-> <<Slot("head", <<46, 114, 97, 253>> \o B16(3) \o B16(80) \o Zeros(10) \o B32(n)), Slot("text", RaText), Slot("codec", <<0>> \o four),
                       Slot("data", Fill(n, 9))>>,
           facts |-> said("text") \cup kind("codec") \cup length("codec") \cup {Fact("sample_rate", "8000", "codec"), Fact("nb_channel", "1", "codec")}]
     ELSE [fmt |-> "ra",
           slots |-> <<Slot("head", <<46, 114, 97, 253>> \o B16(4) \o B16(0) \o <<46, 114, 97, 52>> \o B32((n + (h + 16)) - 40) \o B16(4) \o B32(h)),
                       Slot("mid", mid), Slot("data", Fill(n, 9))>>,
           facts |-> said("mid") \cup kind("mid") \cup length("mid") \cup {Fact("sample_rate", Num(p.rate), "mid"), Fact("nb_channel", Num(p.ch), "mid")}]
Ras == {[ver |-> v, codec |-> c, flavor |-> 2, rate |-> r, ch |-> h] : v \in {3, 4}, c \in {0, 1, 2, 3}, r \in {8000, 44100}, h \in {1, 2}}

RmChunk(tag, data) == tag \o B32(10 + Len(data)) \o B16(0) \o data
P16(b) == B16(Len(b)) \o b
RmStream(s) == RmChunk(<<77, 68, 80, 82>>, B16(s.nb) \o B32(s.rate) \o B32(s.rate - 1) \o Zeros(8) \o B32(s.start) \o B32(0) \o B32(s.ms) \o P8(s.desc.b) \o P8(s.mime.b) \o B32(4) \o Fill(4, 7))
RmProp(name, val) == LET rest == P8(name) \o B32(2) \o P16(val) IN B32(6 + Len(rest)) \o B16(0) \o rest
RmInfo(s) == LET props == RmProp(<<71, 101, 110, 101, 114, 97, 116, 101, 100, 32, 66, 121>>, BobLee.b) \o RmProp(<<67, 114, 101, 97, 116, 105, 111, 110, 32, 68, 97, 116, 101>>, <<49, 49, 47, 51, 48, 47, 50, 48, 49, 48, 32, 50, 51, 58, 53, 57, 58, 53, 56>>) \o RmProp(<<68, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>, Dup(Ann).b)
                 info == B32(2) \o B16(0) \o B16(1) \o B16(0) \o B16(5) \o B16(1) \o B16(3) \o B16(3) \o props
             IN RmChunk(<<77, 68, 80, 82>>, B16(s.nb) \o Zeros(20) \o B32(0) \o B32(0) \o P8(s.desc.b) \o P8(<<108, 111, 103, 105, 99, 97, 108, 45, 102, 105, 108, 101, 105, 110, 102, 111>>) \o B32(Len(info)) \o info)
RmAudio == Word("audio/x-pn-realaudio", <<97, 117, 100, 105, 111, 47, 120, 45, 112, 110, 45, 114, 101, 97, 108, 97, 117, 100, 105, 111>>)
RmVideo == Word("video/x-pn-realvideo", <<118, 105, 100, 101, 111, 47, 120, 45, 112, 110, 45, 114, 101, 97, 108, 118, 105, 100, 101, 111>>)
Rm(p) ==
  LET n == Len(p.streams)
      G(i) == "stream[" \o Num(i - 1) \o "]"
      N(i) == "stream" \o Num(i)
      prop == Slot("prop", RmChunk(<<80, 82, 79, 80>>, B32(90000) \o B32(p.rate) \o Zeros(12) \o B32(p.ms) \o Zeros(12) \o B16(n) \o B16(3)))
      cont == Slot("cont", RmChunk(<<67, 79, 78, 84>>, P16(Ann.b) \o P16(BobLee.b) \o P16(Cafe.b) \o P16(X.b)))
      streams == [i \in 1..n |-> Slot(N(i), IF p.streams[i].logical THEN RmInfo(p.streams[i]) ELSE RmStream(p.streams[i]))]
      Of2(i, k, v) == Of(G(i), k, v, N(i))
  IN [fmt |-> IF p.video THEN "rmvideo" ELSE "rmaudio",
      slots |-> <<Slot("head", <<46, 82, 77, 70>> \o B32(18) \o B16(1) \o B32(0) \o B32(3 + n))>> \o (IF p.flip THEN <<cont, prop>> ELSE <<prop, cont>>) \o streams
               \o <<Slot("data", RmChunk(<<68, 65, 84, 65>>, Fill(30, 9)))>>,
      facts |-> {Fact("bit_rate", Num(p.rate), "prop"), Fact("duration", Num(p.ms), "prop"),
                 Fact("title", Ann.s, "cont"), Fact("author", BobLee.s, "cont"), Fact("copyright", Cafe.s, "cont"), Fact("comment", X.s, "cont")}
                \cup UNION {LET s == p.streams[i]
                            IN {Of2(i, "comment", "Start: " \o Num(s.start)), Of2(i, "title", s.desc.s)}
                               \cup (IF s.logical THEN {Fact("producer", BobLee.s, N(i)), Fact("creation_date", "2010-11-30 23:59:58", N(i)),
                                                        Fact("comment", Dup(Ann).s, N(i))}
                                     ELSE {Of2(i, "bit_rate", Num(s.rate - 1)), Of2(i, "duration", Num(s.ms)), Of2(i, "mime_type", s.mime.s)}) : i \in 1..n}]
RmS(nb, rate, start, ms, desc, mime) == [nb |-> nb, rate |-> rate, start |-> start, ms |-> ms, desc |-> desc, mime |-> mime, logical |-> FALSE]
RmL(nb, desc) == [nb |-> nb, start |-> 0, desc |-> desc, logical |-> TRUE]
Rms == {[rate |-> 20001, ms |-> m, flip |-> f, video |-> s[1], streams |-> s[2]] : m \in {1, 90500}, f \in BOOLEAN,
          s \in {<<FALSE, <<RmS(0, 16001, 0, 90000, Cafe, RmAudio)>>>>,
                 <<TRUE, <<RmS(0, 16001, 5, 90000, Cafe, RmAudio), RmS(1, 64001, 0, 80500, BobLee, RmVideo)>>>>,
                 <<TRUE, <<RmS(0, 64001, 70, 4000, X, RmVideo), RmL(1, Ann)>>>>,
                 <<FALSE, <<RmL(0, Ann), RmS(1, 30001, 70, 4000, X, RmAudio)>>>>}}

---------------------------------------------------------------------------
(* MPEG audio: ID3 tags of several versions, frames, ID3 tag at the end *)
Sync7(n) == <<0, (n \div 16384) % 128, (n \div 128) % 128, n % 128>>
Id3Tag(ver, tag, data) ==
  CASE ver = 2 -> tag \o B24(Len(data)) \o data [] ver = 3 -> tag \o B32(Len(data)) \o <<0, 0>> \o data
    [] OTHER -> tag \o Sync7(Len(data)) \o <<0, 0>> \o data
Utf16be(b) == Cat([i \in 1..Len(b) |-> <<0, b[i]>>])
\* a text in one of the character sets
Said(cs, b) == CASE cs = 1 -> <<255, 254>> \o Utf16(b) [] cs = 2 -> Utf16be(b) [] OTHER -> b
End(cs) == IF cs \in {1, 2} THEN <<0, 0>> ELSE <<0>>
Id3Name(ver, k) ==
  CASE k = "author" -> (IF ver = 2 THEN <<84, 80, 49>> ELSE <<84, 80, 69, 49>>) [] k = "title" -> (IF ver = 2 THEN <<84, 84, 50>> ELSE <<84, 73, 84, 50>>)
    [] k = "album" -> (IF ver = 2 THEN <<84, 65, 76>> ELSE <<84, 65, 76, 66>>) [] k = "producer" -> (IF ver = 2 THEN <<84, 69, 78>> ELSE <<84, 69, 78, 67>>)
    [] k = "music_genre" -> (IF ver = 2 THEN <<84, 67, 79>> ELSE <<84, 67, 79, 78>>) [] k = "track_number" -> (IF ver = 2 THEN <<84, 82, 75>> ELSE <<84, 82, 67, 75>>)
    [] k = "copyright" -> <<84, 67, 79, 80>> [] OTHER -> (IF ver = 2 THEN <<67, 79, 77>> ELSE <<67, 79, 77, 77>>)
Id3Item(ver, cs, k, w) ==
  Id3Tag(ver, Id3Name(ver, k), <<cs>> \o (IF k = "comment" THEN <<101, 110, 103>> \o Said(cs, <<>>) \o End(cs) ELSE <<>>) \o Said(cs, w.b))
Mp3Rates == <<32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320>>
Mp3Hz(r) == CASE r = 0 -> 44100 [] r = 1 -> 48000 [] OTHER -> 32000
Mp3Frame(p, pad) ==
  LET size == ((144000 * Mp3Rates[p.br]) \div Mp3Hz(p.hz)) + (IF pad THEN 1 ELSE 0)
  IN <<255, 251, (16 * p.br) + (4 * p.hz) + (IF pad THEN 2 ELSE 0), 64 * p.mode>> \o Fill(size - 4, 85)
Seven == Word("7", <<55>>)
Mp3(p) ==
  LET items == [i \in 1..Len(p.tags) |-> Id3Item(p.ver, p.cs, p.tags[i][1], p.tags[i][2])]
      more == p.ver > 2 /\ p.cs \in {0, 3}
      web == IF more THEN Id3Tag(p.ver, <<87, 88, 88, 88>>, <<p.cs, 0>> \o Cafe.b) \o Id3Tag(p.ver, <<84, 67, 79, 80>>, <<p.cs>> \o X.b) \o Id3Tag(p.ver, <<84, 76, 65, 78>>, <<p.cs>> \o <<102, 114, 101>>)
             ELSE <<>>
      body == Cat(items) \o web \o Zeros(p.pad)
      frames == [i \in 1..p.n |-> Slot("frame" \o Num(i), Mp3Frame(p, p.padded))]
      v1 == <<84, 65, 71>> \o Padded(Cafe, 30) \o Padded(X, 30) \o Padded(BobLee, 30) \o <<50, 48, 49, 48>> \o Padded(Dup(Ann), 28) \o <<0, 9, 255>>
      \* bits to bits per second
      ms == LET bits == 8 * Size(frames) IN (bits * 10) \div (10 * Mp3Rates[p.br])
      text(i) == p.tags[i][2].s
  IN [fmt |-> "mp3",
      slots |-> <<Slot("id3", <<73, 68, 51>> \o <<p.ver, 0, 0>> \o Sync7(Len(body)) \o body)>> \o frames \o (IF p.v1 THEN <<Slot("id3v1", v1)>> ELSE <<>>),
      facts |-> {Fact("nb_channel", IF p.mode = 3 THEN "1" ELSE "2", "frame1"), Fact("format_version", "MPEG version 1 layer III", "frame1"),
                 Fact("sample_rate", Num(Mp3Hz(p.hz)), "frame1"), Fact("bits_per_sample", "16", "frame1")}
                \cup When((8 * Size(frames)) % Mp3Rates[p.br] = 0, {Fact("duration", Ms(ms), IF p.v1 THEN "id3v1" ELSE "frame" \o Num(p.n))})
                \cup {Fact("bit_rate", Num(1000 * Mp3Rates[p.br]), IF p.v1 THEN "id3v1" ELSE "frame" \o Num(p.n))}
                \cup When(more, {Fact("url", Cafe.s, "id3"), Fact("copyright", X.s, "id3"), Fact("language", "French", "id3")})
                \cup {Fact(p.tags[i][1], text(i), "id3") : i \in 1..Len(p.tags)}
                \cup When(p.v1, {Fact("title", Cafe.s, "id3v1"), Fact("author", X.s, "id3v1"), Fact("album", BobLee.s, "id3v1"),
                                 Fact("creation_date", "2010-01-01", "id3v1"), Fact("comment", Dup(Ann).s, "id3v1"), Fact("track_number", "9", "id3v1")})]
Mp3s == {[ver |-> v[1], cs |-> v[2], tags |-> t, pad |-> x, br |-> b[1], hz |-> b[2], mode |-> m, padded |-> b[3], n |-> n, v1 |-> e] :
           v \in {<<2, 0>>, <<2, 1>>, <<3, 0>>, <<3, 1>>, <<4, 0>>, <<4, 2>>, <<4, 3>>}, x \in {0, 20}, m \in {0, 3}, n \in {1, 6}, e \in BOOLEAN,
           b \in {<<1, 1, FALSE>>, <<5, 2, FALSE>>, <<9, 0, TRUE>>},
           t \in {<<<<"title", Ann>>, <<"track_number", Seven>>>>,
                  <<<<"author", BobLee>>, <<"album", Cafe>>, <<"producer", Ann>>, <<"music_genre", X>>, <<"comment", Cafe>>, <<"title", Dup(Ann)>>>>}}

---------------------------------------------------------------------------
Media == {"oggvorbis", "oggtheora", "mkv", "webm", "mp4", "mov", "avi", "ra", "rmaudio", "rmvideo", "mp3"}
MediaDocs(f) ==
  CASE f = "oggvorbis" -> {Ogg(p) : p \in Oggs} [] f = "oggtheora" -> {Ogv(p) : p \in Ogvs}
    [] f = "mkv" -> {Mkv(p) : p \in {p \in Mkvs : ~p.webm}} [] f = "webm" -> {Mkv(p) : p \in {p \in Mkvs : p.webm}}
    [] f = "mp4" -> {Mp4(p) : p \in {p \in Mp4s : ~p.mov}} [] f = "mov" -> {Mp4(p) : p \in {p \in Mp4s : p.mov}}
    [] f = "avi" -> {Avi(p) : p \in Avis} [] f = "ra" -> {Ra(p) : p \in Ras}
    [] f = "rmaudio" -> {Rm(p) : p \in {p \in Rms : ~p.video}} [] f = "rmvideo" -> {Rm(p) : p \in {p \in Rms : p.video}}
    [] OTHER -> {Mp3(p) : p \in Mp3s}
MediaMime(f) == CASE f = "oggvorbis" -> "audio/vorbis" [] f = "oggtheora" -> "video/theora" [] f = "mkv" -> "video/x-matroska" [] f = "webm" -> "video/webm"
                  [] f = "mp4" -> "video/mp4" [] f = "mov" -> "video/quicktime" [] f = "avi" -> "video/x-msvideo" [] f = "ra" -> "audio/x-realaudio"
                  [] f = "rmaudio" -> RmAudio.s [] f = "rmvideo" -> RmVideo.s [] OTHER -> "audio/mpeg"
MediaBigEndian == {"mkv", "webm", "mp4", "mov", "ra", "rmaudio", "rmvideo", "mp3"}

MediaOrDocs(f) == IF f \in Media THEN MediaDocs(f) ELSE AllDocs(f)
MediaOrMime(f) == IF f \in Media THEN MediaMime(f) ELSE AllMime(f)
MediaOrBigEndian == AllBigEndian \cup MediaBigEndian
=============================================================================
