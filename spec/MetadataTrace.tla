--------------------------- MODULE MetadataTrace ---------------------------
(* Recorded uses of metadata registers.  Register 1 is the document, the    *)
(* others are created for groups.  Header: cfg [raw, max].            *)
EXTENDS Metadata, TraceKit

MetadataHdr == <<77, 101, 116, 97, 100, 97, 116, 97>>
CommonHdr == <<67, 111, 109, 109, 111, 110>>
NoData == [k \in {} |-> <<>>]
MInit(t) == {[regs |-> <<[hdr |-> IF t.multi THEN CommonHdr ELSE MetadataHdr, data |-> NoData]>>,
              groups |-> <<>>, cnt |-> NoData, cfg |-> t.cfg]}

\* what is in the register, as observed: e.data is [key, vals]
Obs(e) == [k \in {e.data[i].key : i \in 1..Len(e.data)} |->
             LET i == CHOOSE i \in 1..Len(e.data) : e.data[i].key = k IN
             [j \in 1..Len(e.data[i].vals) |-> [v |-> e.data[i].vals[j].v, t |-> <<e.data[i].vals[j].t>>]]]
Kind(v) == v.k
MatchItem(x, o, h) == /\ SameVal(x.v, o.v) /\ Kind(x.v) = Kind(o.v)
                      /\ IF x.t # <<>> THEN o.t = x.t ELSE TextOk(h, o.v, o.t[1])
Match(d, o) == /\ {k \in DOMAIN d : d[k] # <<>>} = DOMAIN o
               /\ \A k \in DOMAIN o : /\ Len(o[k]) = Len(Get(d, k))
                                      /\ \A i \in 1..Len(o[k]) : MatchItem(d[k][i], o[k][i], Row(k).handler)
Index(q, i) == IF i >= 0 /\ i < Len(q) THEN <<q[i + 1]>>
               ELSE IF i < 0 /\ -i <= Len(q) THEN <<q[Len(q) + i + 1]>> ELSE <<>>
RegOf(s, e) == s.regs[e.r]

Plain(s, e) ==
  IF e.r # 1 THEN Lines(RegOf(s, e).data, IF e.title # <<>> THEN e.title[1] ELSE RegOf(s, e).hdr,
                        e.p, e.human, e.prefix)
  ELSE Lines(s.regs[1].data, IF e.title # <<>> THEN e.title[1] ELSE s.regs[1].hdr,
             e.p, e.human, e.prefix)
       \o FlattenSeq([i \in 1..Len(s.groups) |->
            Lines(s.regs[s.groups[i].r].data,
                  IF e.human THEN s.regs[s.groups[i].r].hdr ELSE s.groups[i].kc,
                  e.p, e.human, e.prefix)])
\* headings and fields of the dictionary, empty ones left out
Dicts(s, e) ==
  LET all == <<[h |-> IF e.title # <<>> THEN e.title[1] ELSE RegOf(s, e).hdr,
                f |-> Fields(RegOf(s, e).data, e.p, e.human)]>>
             \o (IF e.r # 1 THEN <<>> ELSE [i \in 1..Len(s.groups) |->
                  [h |-> IF e.human THEN s.regs[s.groups[i].r].hdr ELSE s.groups[i].kc,
                   f |-> Fields(s.regs[s.groups[i].r].data, e.p, e.human)]])
      mark == [i \in 1..Len(all) |-> [h |-> all[i].h, f |-> all[i].f,
                                      twin |-> \E j \in 1..(i - 1) : all[j].h = all[i].h]]
  IN SelectSeq(mark, LAMBDA x : x.f # <<>>)
SetTo(s, r, d) == [s EXCEPT !.regs[r].data = d]

MStep(s, e) ==
  CASE e.op = "set" ->
         LET d == IF e.key \notin Keys THEN RegOf(s, e).data
                  ELSE IF e.bad THEN RegOf(s, e).data
                  ELSE Add(RegOf(s, e).data, e.key, e.v, e.t, s.cfg)
         IN IF /\ e.res = (IF e.key \notin Keys THEN "KeyError" ELSE IF e.bad THEN "ValueError" ELSE "ok")
               /\ Match(d, Obs(e))
            THEN {SetTo(s, e.r, Obs(e))} ELSE {}
    [] e.op = "has" ->
         IF e.res = (IF e.key \notin Keys THEN "ValueError"
                     ELSE IF Get(RegOf(s, e).data, e.key) # <<>> THEN "True" ELSE "False") THEN {s} ELSE {}
    [] e.op = "values" ->
         LET q == Get(RegOf(s, e).data, e.key) IN
         IF e.key \notin Keys THEN IF e.res = "ValueError" THEN {s} ELSE {}
         ELSE IF /\ e.res = "ok" /\ Len(e.vals) = Len(q) /\ e.len = Len(q)
                 /\ \A i \in 1..Len(q) : e.vals[i] = q[i].v /\ e.texts[i] = q[i].t[1]
              THEN {s} ELSE {}
    [] e.op = "get" -> \* get(), getText() and getItem() with an index
         LET x == IF e.key \notin Keys THEN <<>> ELSE Index(Get(RegOf(s, e).data, e.key), e.i) IN
         IF /\ e.val = (IF x = <<>> THEN <<>> ELSE <<x[1].v>>)
            /\ e.res = (IF x = <<>> THEN IF e.dflt THEN "default" ELSE "ValueError" ELSE "ok")
            /\ e.text = (IF x = <<>> THEN <<>> ELSE <<x[1].t[1]>>)
            /\ e.item = (IF x = <<>> THEN <<>> ELSE <<[v |-> x[1].v, t |-> x[1].t[1]]>>)
         THEN {s} ELSE {}
    [] e.op = "iter" ->
         IF /\ SelectSeq(e.keys, LAMBDA k : k \in Keys) = [i \in 1..Len(Table) |-> Table[i].key]
            /\ e.bool = (DOMAIN RegOf(s, e).data # {}
                         \/ (e.r = 1 /\ s.groups # <<>>))
         THEN {s} ELSE {}
    [] e.op = "load" -> \* registers found in the metadata of a file
         {[s EXCEPT !.regs = [i \in 1..Len(e.regs) |-> [hdr |-> e.regs[i].hdr, data |-> Obs(e.regs[i])]],
                    !.groups = e.groups]}
    [] e.op = "new" -> {[s EXCEPT !.regs = Append(@, [hdr |-> MetadataHdr, data |-> NoData])]}
    [] e.op = "header" -> {[s EXCEPT !.regs[e.r].hdr = e.h]}
    [] e.op = "group" ->
         LET empty == DOMAIN RegOf(s, e).data = {}
             n == IF e.key \in DOMAIN s.cnt THEN s.cnt[e.key] + 1 ELSE 1
             kc == IF e.many THEN e.kc \o <<91>> \o Dec(n) \o <<93>> ELSE e.kc
         IN IF empty THEN IF e.res = "False" THEN {s} ELSE {}
            ELSE IF \E i \in 1..Len(s.groups) : s.groups[i].kc = kc
                 THEN IF e.res = "UniqKeyError" THEN {s} ELSE {}
            ELSE IF e.res # "True" THEN {}
            ELSE {[s EXCEPT !.groups = Append(@, [kc |-> kc, r |-> e.r]),
                            !.cnt = IF e.many THEN (e.key :> n) @@ @ ELSE @,
                            !.regs[e.r].hdr = IF e.h # <<>> THEN e.h[1] ELSE @]}
    [] e.op = "groups" ->
         IF /\ e.regs = [i \in 1..Len(s.groups) |-> s.groups[i].r]
            /\ e.got = [i \in 1..Len(s.groups) |-> s.groups[i].r]
            /\ e.asked = [i \in 1..Len(s.groups) |-> s.groups[i].kc]
            /\ ~e.other
         THEN {s} ELSE {}
    [] e.op = "plain" -> IF e.lines = Plain(s, e) /\ e.none = (Plain(s, e) = <<>>) THEN {s} ELSE {}
    [] e.op = "str" ->
         LET w == Plain(s, [r |-> e.r, title |-> <<>>, p |-> -1, human |-> TRUE, prefix |-> <<45, 32>>])
         IN IF e.text = FlattenSeq([i \in 1..Len(w) |-> IF i = 1 THEN w[i] ELSE <<10>> \o w[i]])
            THEN {s} ELSE {}
    [] e.op = "dict" ->
         LET w == Dicts(s, e) IN
         IF /\ Len(e.dict) = Len(w)
            /\ \A i \in 1..Len(w) :
                 /\ e.dict[i].f = w[i].f
                 \* groups with the same heading are told apart
                 /\ \/ e.dict[i].h = w[i].h
                    \/ /\ IsPrefixOf(w[i].h, e.dict[i].h)
                       /\ w[i].twin \/ \E j \in 1..(i - 1) : e.dict[j].h = w[i].h
         THEN {s} ELSE {}
MAllow(s, e) ==
  CASE e.op = "set" /\ e.key \in Keys /\ ~e.bad -> [want |-> Add(RegOf(s, e).data, e.key, e.v, e.t, s.cfg)]
    [] e.op = "plain" -> [lines |-> Plain(s, e)]
    [] e.op = "dict" -> [dict |-> Dicts(s, e)]
    [] OTHER -> [regs |-> s.regs]
=============================================================================
