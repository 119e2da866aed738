---------------------------- MODULE OtherFacts ----------------------------
(***************************************************************************)
(* More documents: cabinets and fonts.                                       *)
(***************************************************************************)
EXTENDS MediaFacts

(* Cabinets: folders of data blocks, and files which lie in the folders *)
CabMethod(c) == CASE c[1] = 0 -> "Uncompressed" [] c[1] = 1 -> "Deflate" [] c[1] = 2 -> "Quantum (level " \o Num(c[2]) \o ")"
                  [] OTHER -> "LZX (level " \o Num(c[2]) \o ")"
CabRaw(c, data) == IF c[1] = 1 THEN <<67, 75, 1>> \o L16(Len(data)) \o L16(65535 - Len(data)) \o data ELSE data
CabBlock(c, data, rsv) == L32(0) \o L16(Len(CabRaw(c, data))) \o L16(Len(data)) \o Fill(rsv, 9) \o CabRaw(c, data)
Cab(p) ==
  LET n == Len(p.files)
      m == Len(p.folders)
      f(i) == p.files[i]
      rsv == IF p.rsv THEN 2 ELSE 0
      opt == (IF p.rsv THEN L16(3) \o <<2, 2>> \o <<1, 2, 3>> ELSE <<>>)
             \o (IF p.prev THEN Cafe.b \o <<0>> \o Ann.b \o <<0>> ELSE <<>>) \o (IF p.next THEN X.b \o <<0>> \o BobLee.b \o <<0>> ELSE <<>>)
      top == 36 + Len(opt)
      \* the files lie one after the other in folder after folder
      inside(j) == {i \in 1..n : ((i - 1) % m) + 1 = j}
      RECURSIVE Total(_)
      Total(s) == IF s = {} THEN 0 ELSE LET i == CHOOSE i \in s : \A k \in s : i >= k IN f(i).size + Total(s \ {i})
      before(i) == Total({k \in inside(((i - 1) % m) + 1) : k < i})
      file(i) == L32(f(i).size) \o L32(before(i)) \o L16((i - 1) % m) \o L16(15742) \o L16(49021) \o L16(f(i).attr) \o f(i).name.b \o <<0>>
      block(j) == CabBlock(p.folders[j], Fill(Total(inside(j)), 70 + j), rsv)
      offFile == top + m * (8 + rsv)
      RECURSIVE At(_)
      At(j) == IF j = 1 THEN offFile + Len(Cat([i \in 1..n |-> file(i)])) ELSE At(j - 1) + Len(block(j - 1))
      end == At(m) + Len(block(m))
      flags == (IF p.prev THEN 1 ELSE 0) + (IF p.next THEN 2 ELSE 0) + (IF p.rsv THEN 4 ELSE 0)
      G(i) == "file[" \o Num(i - 1) \o "]"
  IN [fmt |-> "cab",
      slots |-> <<Slot("head", <<77, 83, 67, 70>> \o L32(0) \o L32(end) \o L32(0) \o L32(offFile) \o L32(0) \o <<3, 1>> \o L16(m) \o L16(n)
                               \o L16(flags) \o L16(77) \o L16(0) \o opt)>>
               \o [j \in 1..m |-> Slot("folder" \o Num(j), L32(At(j)) \o L16(1) \o L16(p.folders[j][1] + (256 * p.folders[j][2])) \o Fill(rsv, 8))]
               \o [i \in 1..n |-> Slot("file" \o Num(i), file(i))]
               \o [j \in 1..m |-> Slot("data" \o Num(j), block(j))],
      facts |-> {Fact("format_version", "Microsoft Cabinet version 1.3", "head"), Fact("comment", Num(m) \o " folders, " \o Num(n) \o " files", "head"),
                 Fact("compression", CabMethod(p.folders[1]), "folder1")}
                \cup UNION {{InGroup(G(i), i - 1, "filename", f(i).name.s, "file" \o Num(i)),
                             InGroup(G(i), i - 1, "file_size", Num(f(i).size), "file" \o Num(i)),
                             InGroup(G(i), i - 1, "creation_date", "2010-11-30 23:59:58", "file" \o Num(i))} : i \in 1..n}]
CabFiles(l) == [i \in 1..Len(l) |-> [name |-> l[i].name, size |-> l[i].size, attr |-> CASE i % 3 = 0 -> 32 [] i % 3 = 1 -> 128 [] OTHER -> 0]]
Cabs == {[files |-> CabFiles(l), folders |-> c, rsv |-> r, prev |-> x[1], next |-> x[2]] :
           l \in {<<TarFiles[1]>>, <<TarFiles[3], TarFiles[1]>>, TarFiles, Number(TarFiles, 12)}, r \in BOOLEAN, x \in {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>},
           c \in {<<<<0, 0>>>>, <<<<1, 0>>>>, <<<<3, 15>>>>, <<<<2, 4>>, <<0, 0>>>>, <<<<1, 0>>, <<1, 0>>, <<0, 0>>>>}}

---------------------------------------------------------------------------
(* Fonts of X11: a table of properties, names and texts lie behind it *)
PropName(k) ==
  CASE k = "charset" -> <<67, 72, 65, 82, 83, 69, 84, 95, 82, 69, 71, 73, 83, 84, 82, 89>> [] k = "copyright" -> <<67, 79, 80, 89, 82, 73, 71, 72, 84>>
    [] k = "font_weight" -> <<87, 69, 73, 71, 72, 84, 95, 78, 65, 77, 69>> [] k = "author" -> <<70, 79, 85, 78, 68, 82, 89>>
    [] k = "title" -> <<70, 79, 78, 84>> [] k = "number" -> <<83, 73, 90, 69>> [] OTHER -> <<83, 76, 65, 78, 84>>
Pcf(p) ==
  LET n == Len(p.props)
      is(i) == p.props[i][1] # "number"
      name(i) == PropName(p.props[i][1]) \o <<0>>
      text(i) == IF is(i) THEN p.props[i][2].b \o <<0>> ELSE <<>>
      \* the names lie in the order of the properties, or the other way round
      order == [i \in 1..n |-> IF p.back THEN (n + 1) - i ELSE i]
      place(i) == IF p.back THEN (n + 1) - i ELSE i
      RECURSIVE At(_)
      At(k) == IF k = 1 THEN 0 ELSE At(k - 1) + Len(name(order[k - 1])) + Len(text(order[k - 1]))
      at(i) == At(place(i))
      W(v) == W32(p.be, v)
      prop(i) == W(at(i)) \o <<IF is(i) THEN 1 ELSE 0>> \o W(IF is(i) THEN at(i) + Len(name(i)) ELSE 1000000 + i)
      total == At(n) + Len(name(order[n])) + Len(text(order[n]))
      size == 8 + (9 * n) + ((4 - (n % 4)) % 4) + 4 + total
      nb == IF p.acc THEN 2 ELSE 1
      begin == 8 + (16 * nb) + (IF p.acc THEN 20 ELSE 0)
  IN [fmt |-> "pcf",
      slots |-> <<Slot("head", <<1, 102, 99, 112>> \o L32(nb) \o L32(1) \o L32(14) \o L32(size) \o L32(begin)
                               \o (IF p.acc THEN L32(2) \o L32(14) \o L32(16) \o L32(begin - 16) ELSE <<>>))>>
               \o (IF p.acc THEN <<Slot("accel", Zeros(4) \o Fill(16, 3))>> ELSE <<>>)
               \o <<Slot("props", <<IF p.be THEN 14 ELSE 10, 0, 0, 0>> \o W(n) \o Cat([i \in 1..n |-> prop(i)]) \o Zeros((4 - (n % 4)) % 4) \o W(total))>>
               \o [k \in 1..n |-> Slot("text" \o Num(order[k]), name(order[k]) \o text(order[k]))],
      facts |-> {Fact(p.props[i][1], p.props[i][2].s, "text" \o Num(i)) : i \in {i \in 1..n : p.props[i][1] \notin {"number", "other"}}}]
Pcfs == {[props |-> t, be |-> b, back |-> k, acc |-> a] : b \in BOOLEAN, k \in BOOLEAN, a \in BOOLEAN,
           t \in {<<<<"title", Ann>>>>, <<<<"author", BobLee>>, <<"font_weight", Cafe>>>>, <<<<"number", X>>, <<"copyright", Dup(Ann)>>, <<"other", X>>, <<"charset", Cafe>>>>,
                  <<<<"author", X>>, <<"number", X>>, <<"font_weight", Ann>>, <<"title", Dup(BobLee)>>, <<"copyright", Cafe>>, <<"charset", Ann>>, <<"other", Ann>>>>}}

---------------------------------------------------------------------------
(* TrueType fonts: tables; the texts of the table "name" in an encoding *)
TagHead == <<104, 101, 97, 100>>
TagName == <<110, 97, 109, 101>>
Told(w, x) == IF w[1] \in {0, 3} THEN Utf16be(x) ELSE x
NameId(k) == CASE k = "copyright" -> 0 [] k = "title" -> 3 [] k = "version" -> 5 [] k = "author" -> 8 [] k = "url" -> 11 [] OTHER -> 2
Version_ == <<86, 101, 114, 115, 105, 111, 110, 32>>
FontDir(d) == CASE d = 0 -> "Mixed directional" [] d = 1 -> "Left to right" [] OTHER -> "Left to right + neutrals"
Ttf(p) ==
  LET n == Len(p.names)
      val(i) == Told(p.enc, (IF p.names[i][1] = "version" THEN Version_ ELSE <<>>) \o p.names[i][2].b)
      \* the texts lie in the order of the index, or the other way round
      order == [i \in 1..n |-> IF p.back THEN (n + 1) - i ELSE i]
      RECURSIVE Off(_)
      Off(k) == IF k = 1 THEN 0 ELSE Off(k - 1) + Len(val(order[k - 1]))
      At(i) == Off(order[i])
      index == B16(0) \o B16(n) \o B16(6 + (12 * n))
               \o Cat([i \in 1..n |-> B16(p.enc[1]) \o B16(p.enc[2]) \o B16(0) \o B16(NameId(p.names[i][1])) \o B16(Len(val(i))) \o B16(At(i))])
      texts == Cat([k \in 1..n |-> val(order[k])])
      head1 == B16(1) \o B16(0) \o B16(1) \o B16(0) \o B32(0) \o <<95, 15, 60, 245>> \o B16(3) \o B16(1000) \o B32(0) \o p.created[1] \o B32(0) \o p.changed[1]
      head2 == B16(0) \o B16(0) \o B16(10) \o B16(10) \o B16(0) \o B16(p.px) \o B16(p.dir) \o B16(0) \o B16(0)
      lenNames == Len(index) + Len(texts)
      top == 12 + 48
      entry(tag, at, size) == tag \o Zeros(4) \o B32(at) \o B32(size)
      free == <<103, 108, 121, 102>>
      \* "head" before or behind "name"
      atHead == IF p.first THEN top ELSE top + lenNames
      atNames == IF p.first THEN top + 54 ELSE top
      heads == <<Slot("head1", head1), Slot("head2", head2)>>
      names == <<Slot("index", index)>> \o [k \in 1..n |-> Slot("name" \o Num(order[k]), val(order[k]))]
  IN [fmt |-> "ttf",
      slots |-> <<Slot("file", B16(1) \o B16(0) \o B16(3) \o B16(32) \o B16(1) \o B16(16)
                               \o entry(free, top + 54 + lenNames, 10) \o entry(TagHead, atHead, 54) \o entry(TagName, atNames, lenNames))>>
               \o (IF p.first THEN heads \o names ELSE names \o heads) \o <<Slot("free", Fill(10, 7))>>,
      facts |-> {Fact("creation_date", p.created[2], "head2"), Fact("last_modification", p.changed[2], "head2"),
                 Fact("comment", "Smallest readable size in pixels: " \o Num(p.px) \o " pixels", "head2"), Fact("comment", "Font direction: " \o FontDir(p.dir), "head2")}
                \cup {Fact(p.names[i][1], p.names[i][2].s, "name" \o Num(i)) : i \in {i \in 1..n : p.names[i][1] # "other"}}]
MacA == <<<<183, 192, 122, 128>>, "2001-09-09 01:46:40">>
MacB == <<<<0, 1, 81, 128>>, "1904-01-02 00:00:00">>
Ttfs == {[names |-> t, enc |-> e, created |-> c, changed |-> MacA, px |-> x, dir |-> x % 3, first |-> f, back |-> ~f \/ x = 8] :
           e \in {<<3, 1>>, <<1, 0>>, <<0, 3>>, <<2, 1>>}, c \in {MacA, MacB}, x \in {0, 8, 9}, f \in BOOLEAN,
           t \in {<<<<"title", Ann>>>>, <<<<"copyright", Cafe>>, <<"other", X>>, <<"title", Dup(Ann)>>, <<"version", Cafe>>, <<"author", BobLee>>, <<"url", X>>>>}}

---------------------------------------------------------------------------
Other == {"cab", "pcf", "ttf"}
OtherOrDocs(f) == IF f \in Other THEN (CASE f = "cab" -> {Cab(p) : p \in Cabs} [] f = "pcf" -> {Pcf(p) : p \in Pcfs} [] OTHER -> {Ttf(p) : p \in Ttfs})
                ELSE MediaOrDocs(f)
OtherOrMime(f) == CASE f = "cab" -> "application/vnd.ms-cab-compressed" [] f \in {"pcf", "ttf"} -> "application/octet-stream" [] OTHER -> MediaOrMime(f)
OtherOrBigEndian == MediaOrBigEndian \cup {"ttf"}
=============================================================================
