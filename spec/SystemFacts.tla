---------------------------- MODULE SystemFacts ----------------------------
(***************************************************************************)
(* Images of discs and executable files.                                     *)
(***************************************************************************)
EXTENDS AsfFacts

\* ISO 9660: descriptors of volumes behind 32 KB
IsoText(w, n) == IF w = <<>> THEN Fill(n, 32) ELSE Spaced(w[1].b, n)
IsoTime(y) == IF y = <<>> THEN Fill(16, 48) \o <<0>> ELSE y[1].b \o <<0>>
IsoVolume(t, data) == <<t>> \o <<67, 68, 48, 48, 49, 1>> \o data
Iso(p) ==
  [fmt |-> "iso9660",
   slots |-> <<Slot("start", Zeros(32768) \o IsoVolume(1, <<>>)),
               Slot("id", <<0>> \o IsoText(<<X>>, 32) \o IsoText(p.id, 32)),
               Slot("sizes", Zeros(8) \o Fill(8, 3) \o Zeros(32) \o Fill(36, 2) \o Fill(34, 4)),
               Slot("set", IsoText(p.set, 128)), Slot("publisher", IsoText(p.publisher, 128)), Slot("preparer", IsoText(p.preparer, 128)),
               Slot("application", IsoText(p.application, 128)), Slot("copyright", IsoText(p.copyright, 37)),
               Slot("files", Fill(74, 32)), Slot("created", IsoTime(p.created)), Slot("changed", IsoTime(p.changed)),
               Slot("expires", IsoTime(<<>>) \o IsoTime(<<>>)),
               Slot("rest", <<1, 0>> \o Fill(512, 32) \o Zeros(653))>>
             \o (IF p.boot THEN <<Slot("boot", IsoVolume(0, Fill(2041, 66)))>> ELSE <<>>)
             \o <<Slot("end", IsoVolume(255, Zeros(2041)))>> \o (IF p.more > 0 THEN <<Slot("data", Fill(p.more, 9))>> ELSE <<>>),
   facts |-> UNION {{Fact(x[1], x[2][1].s, x[3])} : x \in {x \in {<<"title", p.id, "id">>, <<"title", p.set, "set">>, <<"author", p.publisher, "publisher">>,
                       <<"author", p.preparer, "preparer">>, <<"producer", p.application, "application">>, <<"copyright", p.copyright, "copyright">>,
                       <<"creation_date", p.created, "created">>, <<"last_modification", p.changed, "changed">>} : x[2] # <<>>}}]
IsoA == Word("2010-11-30 23:59:58", <<50, 48, 49, 48, 49, 49, 51, 48, 50, 51, 53, 57, 53, 56, 48, 48>>)
IsoB == Word("1999-01-02 00:00:01", <<49, 57, 57, 57, 48, 49, 48, 50, 48, 48, 48, 48, 48, 49, 57, 57>>)
Isos == {[id |-> t[1], set |-> t[2], publisher |-> t[3], preparer |-> t[4], application |-> t[5], copyright |-> t[6], created |-> t[7], changed |-> t[8],
          boot |-> b, more |-> IF b THEN 5000 ELSE 0] : b \in BOOLEAN,
           t \in {<<<<Cafe>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>,
                  <<<<Cafe>>, <<BobLee>>, <<Ann>>, <<Dup(Cafe)>>, <<Dup(X)>>, <<X>>, <<IsoA>>, <<IsoB>>>>,
                  <<<<>>, <<X>>, <<>>, <<Ann>>, <<>>, <<Cafe>>, <<>>, <<IsoA>>>>}}

---------------------------------------------------------------------------
(* Portable executables: headers, sections, and the texts of the version     *)
(* resource, which is a tree of nodes behind three levels of directories     *)
TextName(k) ==
    CASE k = "ProductName" -> <<80, 114, 111, 100, 117, 99, 116, 78, 97, 109, 101>>
    [] k = "FileDescription" -> <<70, 105, 108, 101, 68, 101, 115, 99, 114, 105, 112, 116, 105, 111, 110>>
    [] k = "LegalCopyright" -> <<76, 101, 103, 97, 108, 67, 111, 112, 121, 114, 105, 103, 104, 116>>
    [] k = "LegalTrademarks2" -> <<76, 101, 103, 97, 108, 84, 114, 97, 100, 101, 109, 97, 114, 107, 115, 50>>
    [] k = "CompanyName" -> <<67, 111, 109, 112, 97, 110, 121, 78, 97, 109, 101>>
    [] k = "ProductVersion" -> <<80, 114, 111, 100, 117, 99, 116, 86, 101, 114, 115, 105, 111, 110>>
    [] k = "InternalName" -> <<73, 110, 116, 101, 114, 110, 97, 108, 78, 97, 109, 101>>
    [] OTHER -> <<83, 108, 97, 110, 116>>
TextKey(k) ==
    CASE k = "ProductName" -> "title"
    [] k = "FileDescription" -> "title"
    [] k = "LegalCopyright" -> "copyright"
    [] k = "LegalTrademarks2" -> "copyright"
    [] k = "CompanyName" -> "author"
    [] k = "ProductVersion" -> "version"
    [] k = "InternalName" -> ""
    [] OTHER -> "comment"
Up4(b) == b \o Zeros((4 - (Len(b) % 4)) % 4)
\* a node: its size is that of its contents, without the padding at the end
NodeHead(name, type, nb) == L16(nb) \o L16(type) \o Wide(name)
Node(name, type, nb, value, more) ==
  LET h == Up4(Zeros(6) \o Wide(name)) \o value
      top == Up4(Zeros(2) \o NodeHead(name, type, nb))
  IN L16(Len(h) + more) \o SubSeq(top, 3, Len(top)) \o value
StringInfo == <<83, 116, 114, 105, 110, 103, 70, 105, 108, 101, 73, 110, 102, 111>>
VarInfo == <<86, 97, 114, 70, 105, 108, 101, 73, 110, 102, 111>>
Translation == <<84, 114, 97, 110, 115, 108, 97, 116, 105, 111, 110>>
VersionInfo == <<86, 83, 95, 86, 69, 82, 83, 73, 79, 78, 95, 73, 78, 70, 79>>
Lang == <<48, 52, 48, 57, 48, 52, 66, 48>>
SubDir(n) == L16(n) \o <<0, 128>>
ResDir(entries) == Zeros(12) \o L16(0) \o L16(Len(entries)) \o Cat(entries)
Cpu(c) == CASE c = 332 -> "Intel 80386" [] c = 448 -> "ARM" [] OTHER -> "Intel IA64"
Subsystem(n) == CASE n = 2 -> "Windows GUI" [] n = 3 -> "Windows CUI" [] OTHER -> "Native"
Pe(p) ==
  LET n == Len(p.texts)
      k == IF p.raw THEN 2 ELSE 1
      leaf(i) == LET t == p.texts[i][2].b
                 IN Up4(Node(TextName(p.texts[i][1]), 1, (Len(t) + 1) * (IF p.old THEN 2 ELSE 1), Wide(t), 0))
      leaves == Cat([i \in 1..n |-> leaf(i)])
      table == Node(Lang, 1, 0, <<>>, Len(leaves))
      info == Node(StringInfo, 1, 0, <<>>, Len(table) + Len(leaves))
      trans == Node(Translation, 0, 4, <<9, 4, 176, 4>>, 0)
      var == Node(VarInfo, 1, 0, <<>>, Len(trans)) \o trans
      fixed == <<189, 4, 239, 254>> \o Fill(20, 1) \o L32(IF p.old THEN 0 ELSE 63) \o Zeros(4) \o L16(4) \o L16(4) \o L32(1) \o L32(0) \o Zeros(8)
      below == Len(info) + Len(table) + Len(leaves) + Len(var)
      root == Node(VersionInfo, 0, 52, fixed, below)
      version == root \o (IF p.var THEN var ELSE <<>>) \o info \o table
      size == Len(root) + below
      rawRes == Fill(20, 99)
      V == 4096
      at2(j) == 16 + (8 * k) + (24 * (j - 1))
      at3(j) == at2(k + 1) + (24 * (j - 1))
      at4(j) == at3(k + 1) + (16 * (j - 1))
      data == at4(k + 1)
      \* the version is the last resource of the directories, its contents the first of the section, or the other way round
      type(j) == IF j = k THEN 16 ELSE 10
      atRes(j) == IF j = k THEN (IF p.raw THEN data + 20 ELSE data) ELSE data
      lenRes(j) == IF j = k THEN size ELSE 20
      dirs == ResDir([j \in 1..k |-> L32(type(j)) \o SubDir(at2(j))]) \o Cat([j \in 1..k |-> ResDir(<<L32(1) \o SubDir(at3(j))>>)])
              \o Cat([j \in 1..k |-> ResDir(<<L32(1033) \o L32(at4(j))>>)])
              \o Cat([j \in 1..k |-> L32(V + atRes(j)) \o L32(lenRes(j)) \o Zeros(8)]) \o (IF p.raw THEN rawRes ELSE <<>>)
      resource == n > 0
      nSect == IF resource THEN 2 ELSE 1
      \* 16 directories, the third of them the resources
      table16 == Zeros(16) \o (IF resource THEN L32(V) \o L32(Len(dirs) + size) ELSE Zeros(8)) \o Zeros(104)
      opt1 == L16(IF p.plus THEN 523 ELSE 267) \o <<1, 2>> \o Fill(20, 1) \o Fill(IF p.plus THEN 8 ELSE 8, 5) \o Fill(8, 16) \o Fill(12, 4) \o Zeros(4) \o Fill(12, 8)
      opt == opt1 \o L16(p.sub) \o L16(0) \o Fill(IF p.plus THEN 32 ELSE 16, 0) \o L32(0) \o L32(16) \o table16
      begin == 80 + 24 + Len(opt) + (40 * nSect)
      text == Fill(32, 144)
      sect(name, rva, len, off) == Padded(name, 8) \o L32(len) \o L32(rva) \o L32(len) \o L32(off) \o Zeros(12) \o Zeros(4)
      Text_ == [b |-> <<46, 116, 101, 120, 116>>]
      Rsrc == [b |-> <<46, 114, 115, 114, 99>>]
  IN [fmt |-> "exe",
      slots |-> <<Slot("msdos", <<77, 90, 144, 0, 3, 0, 0, 0, 4, 0>> \o Fill(4, 0) \o Zeros(4) \o Zeros(2) \o Zeros(4) \o L16(64) \o Zeros(2) \o Zeros(8) \o Zeros(4) \o Zeros(20)
                                \o L32(80) \o Fill(16, 14)),
                  Slot("pe", <<80, 69, 0, 0>> \o L16(p.cpu) \o L16(nSect) \o L32(1000000000) \o Zeros(8) \o L16(Len(opt)) \o L16(IF p.dll THEN 8194 ELSE 258)),
                  Slot("opt", opt),
                  Slot("sections", sect(Text_, 8192, 32, begin) \o (IF resource THEN sect(Rsrc, V, Len(dirs) + size, begin + 32) ELSE <<>>)),
                  Slot("text", text)>>
               \o (IF resource THEN <<Slot("dirs", dirs), Slot("version", version)>> \o [i \in 1..n |-> Slot("s" \o Num(i), leaf(i))]
                                    \o (IF p.var THEN <<>> ELSE <<Slot("var", var)>>)
                   ELSE <<>>),
      facts |-> {Fact("creation_date", "2001-09-09 01:46:40", "pe"), Fact("comment", "CPU: " \o Cpu(p.cpu), "pe"),
                 Fact("format_version", IF p.dll THEN "Portable Executable: Dynamic-link library (DLL)" ELSE "Portable Executable: Windows application", "pe"),
                 Fact("comment", "Subsystem: " \o Subsystem(p.sub), "opt")}
                \cup {Fact(TextKey(t[1]), (IF TextKey(t[1]) = "comment" THEN "Slant=" ELSE "") \o t[2].s, "s" \o Num(i))
                        : <<i, t>> \in {<<i, p.texts[i]>> : i \in {i \in 1..n : TextKey(p.texts[i][1]) # ""}}}]
Pes == {[texts |-> t, raw |-> r, var |-> v, old |-> o, plus |-> q, cpu |-> c[1], dll |-> c[2], sub |-> c[3]] :
          r \in BOOLEAN, v \in BOOLEAN, o \in BOOLEAN, q \in BOOLEAN, c \in {<<332, FALSE, 2>>, <<448, TRUE, 3>>, <<512, FALSE, 1>>},
          t \in {<<>>, <<<<"ProductName", Ann>>>>,
                 <<<<"CompanyName", BobLee>>, <<"FileDescription", Cafe>>, <<"InternalName", Dup(X)>>, <<"LegalCopyright", Ann>>, <<"LegalTrademarks2", Dup(Cafe)>>,
                   <<"ProductName", Dup(Ann)>>, <<"ProductVersion", X>>, <<"Slant", Ann>>>>}}

---------------------------------------------------------------------------
System == {"iso9660", "exe"}
EveryDocs(f) == IF f \in System THEN (IF f = "exe" THEN {Pe(p) : p \in Pes} ELSE {Iso(p) : p \in Isos}) ELSE AsfOrDocs(f)
EveryMime(f) == CASE f = "exe" -> "application/x-dosexec" [] f = "iso9660" -> "application/octet-stream" [] OTHER -> AsfOrMime(f)
EveryBigEndian == AsfOrBigEndian
=============================================================================
