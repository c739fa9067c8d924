------------------------------- MODULE MCGeo -------------------------------
(***************************************************************************)
(* Every GeoKey stored inline, in the double area and in the text area,    *)
(* with offsets and counts inside and outside of them; headers and         *)
(* truncated key directories; combinations of keys.                        *)
(***************************************************************************)
EXTENDS TiffWrite, TLC, Json
CONSTANTS Deep

Dbls == << <<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 9, 33, 251, 84, 68, 45, 24>>,
           <<65, 88, 85, 26, 0, 0, 0, 1>> >>
Chars == <<87, 71, 83, 124, 85, 32, 56, 124, 124>>         \* WGS|U 8||
Unknown == {0, 1027, 2062, 3096, 4100, 65535}

DirEntry(words, ty) == E(GeoDirTag, ty, [i \in 1..Len(words) |-> OfNat(words[i], TypeSize(ty))])
DblEntry == E(GeoDoubleTag, 12, Dbls)
AscEntry == E(GeoAsciiTag, 2, [i \in 1..(Len(Chars) + 1) |-> IF i > Len(Chars) THEN <<0>> ELSE <<Chars[i]>>])

VARIABLE q     \* [kind, words, areas, le, big, ty]: the shorts of the key directory
Case(kind, words, areas, h) ==
  [kind |-> kind, words |-> words, areas |-> areas, le |-> h % 2 = 0, big |-> (h \div 2) % 2 = 0,
   ty |-> IF h % 5 = 4 THEN 4 ELSE 3]
Es(x) == Needed \o << DirEntry(x.words, x.ty) >>
         \o (IF "d" \in x.areas THEN <<DblEntry>> ELSE <<>>)
         \o (IF "a" \in x.areas THEN <<AscEntry>> ELSE <<>>)
Bytes(x) == FileBytes(<<Es(x)>>, x.le, x.big)

Head4(n) == <<1, 1, 0, n>>
Offs == {0, 1, 2, 3, 4, 8, 9, 10, 65535}
Cnts == {0, 1, 2, 4, 9, 65535}
Locs == {0, GeoDoubleTag, GeoAsciiTag}
Areas == SUBSET {"d", "a"}
Both == {"d", "a"}
(* A second key that must not be affected.                                 *)
Other(k) == IF k = 2048 THEN <<1025, 0, 1, 2>> ELSE <<2048, 0, 1, 4326>>

Keyed(k) ==
  {Case("key", Head4(2) \o <<k, l, c, o>> \o Other(k), Both, k + o + c + l) :
     l \in Locs, c \in (IF Deep THEN Cnts ELSE {0, 1, 2, 4}), o \in (IF Deep THEN Offs ELSE {0, 1, 2, 3, 8, 9})}
  \cup {Case("key", Head4(2) \o <<k, l, 1, 0>> \o Other(k), a, k + l) : l \in Locs, a \in Areas}
Pool == << <<1024, 0, 1, 2>>, <<1026, GeoAsciiTag, 4, 0>>, <<2048, 0, 1, 4267>>,
           <<2057, GeoDoubleTag, 1, 2>>, <<3072, 0, 1, 32633>>, <<5000, 7, 9, 11>> >>
Chosen(s) == SelectSeq(Pool, LAMBDA e : e[1] \in s)
Combos == {Case("combo", Head4(Cardinality(s)) \o Flat(IF r THEN Rev(Chosen(s)) ELSE Chosen(s)), Both, h) :
             s \in SUBSET {Pool[i][1] : i \in 1..Len(Pool)}, r \in BOOLEAN, h \in 0..3}
Two == <<1024, 0, 1, 1, 3072, 0, 1, 4326>>
Heads == {Case("head", <<v, r, m, n>> \o Two, Both, v + r + m + n) :
            v \in 0..2, r \in 0..2, m \in {0, 1, 7}, n \in {0, 1, 2, 3, 4, 255, 65535}}
         \cup {Case("head", SubSeq(Head4(2) \o Two, 1, n), Both, h) : n \in 0..12, h \in 0..3}

Init == q = Case("start", <<>>, {}, 0)
        \/ \E k \in GeoKeys \cup Unknown : q = Case("startkey", <<k>>, {}, 0)
Next ==
  /\ \/ q.kind = "startkey" /\ q' \in Keyed(q.words[1])
     \/ q.kind = "start" /\ q' \in Combos \cup Heads
  /\ PrintT(ToJson([b |-> Bytes(q')]))

Decided ==
  LET ch == Chain(FileOf(Bytes(q)))
      g == ch.ds[1].g
      w == q.words
      k == w[5]
      oth == GeoKeyName[w[9]]
      set == {nm \in GeoNames : g.f[nm].s = "set"}
  IN CASE q.kind \in {"start", "startkey"} -> TRUE
       [] q.kind = "key" /\ k \in Unknown -> ch.k = "ok" /\ set = {oth}
       [] q.kind = "key" /\ k \in GeoKeys ->
            /\ ch.k = "ok" => /\ set = {oth, GeoKeyName[k]}
                              /\ g.f[oth].v = << OfNat(w[12], 2) >>
            \* values in the right place are read, and only those
            /\ (ch.k = "ok") <=>
                 \/ w[6] = 0 /\ k \in U16Keys
                 \/ w[6] = GeoDoubleTag /\ k \in F64Keys /\ "d" \in q.areas /\ w[7] = 1 /\ w[8] < 3
                 \/ w[6] = GeoAsciiTag /\ k \in TextKeys /\ "a" \in q.areas /\ w[7] + w[8] <= 9
            /\ (ch.k = "ok" /\ w[6] = 0) => g.f[GeoKeyName[k]].v = << OfNat(w[8], 2) >>
            /\ (ch.k = "ok" /\ w[6] = GeoDoubleTag) => g.f[GeoKeyName[k]].v = << Dbls[w[8] + 1] >>
       [] q.kind = "combo" ->
            /\ ch.k = "ok"
            /\ set = {GeoKeyName[w[4 * i + 1]] : i \in {j \in 1..w[4] : w[4 * j + 1] \in GeoKeys}}
            /\ LET e == Epsg(g.f)
               IN IF "projected_type" \in set THEN e.v = << OfNat(32633, 2) >>
                  ELSE IF "geographic_type" \in set THEN e.v = << OfNat(4267, 2) >>
                  ELSE e.s = "unset"
       [] q.kind = "head" -> (ch.k = "ok") <=> (Len(w) >= 4 /\ w[1] = 1 /\ w[2] = 1
                                                /\ Len(w) >= 4 + 4 * w[4])
=============================================================================
