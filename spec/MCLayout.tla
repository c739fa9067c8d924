------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* Several images, each in every layout: what the file denotes is always   *)
(* the same image.  Prints every file with the number of its image.        *)
(***************************************************************************)
EXTENDS Layout, TLC, Json
CONSTANTS Deep

N(tag, n) == [tag |-> tag, ty |-> 0, vs |-> <<W8(n)>>]
Ns(tag, ns) == [tag |-> tag, ty |-> 0, vs |-> [i \in 1..Len(ns) |-> W8(ns[i])]]
Text(tag, cs) == [tag |-> tag, ty |-> 2, vs |-> [i \in 1..Len(cs) |-> <<cs[i]>>]]
Is(tag, ty, vs) == [tag |-> tag, ty |-> ty, vs |-> vs]
Same(n, x) == [i \in 1..n |-> x]
Sample(k, n) == [i \in 1..n |-> (k * (17 + 40 * i) + 91 * i + (k \div 3) * 5) % 256]
Image(w, h, tw, th, spp, ty, planar, pred, more) ==
  LET nx == (w + tw - 1) \div tw
      ny == (h + th - 1) \div th
      per == tw * th * spp
      one(k) == IF ty = <<1, 1>> THEN <<Sample(k, 1)[1] % 2>> ELSE Sample(k, ty[2] \div 8)
  IN [attrs |-> << N(256, w), N(257, h), Ns(258, Same(spp, ty[2])), N(262, 1), N(277, spp),
                   N(284, IF planar THEN 2 ELSE 1), N(317, pred), N(322, tw), N(323, th),
                   Ns(339, Same(spp, ty[1])) >> \o more,
      tw |-> tw, th |-> th, nx |-> nx, ny |-> ny, spp |-> spp, ty |-> ty, planar |-> planar, pred |-> pred,
      tiles |-> [t \in 1..(nx * ny) |-> [k \in 1..per |-> one((t - 1) * per + k)]]]

Geo == << Is(34735, 3, [i \in 1..16 |-> OfNat(<<1, 1, 0, 3, 1024, 0, 1, 1, 2057, 34736, 1, 1, 1026, 34737, 3, 1>>[i], 2)]),
          Is(34736, 12, << <<63, 240, 0, 0, 0, 0, 0, 0>>, <<65, 88, 84, 166, 64, 0, 0, 0>> >>),
          Text(34737, <<120, 97, 98, 124, 0>>) >>
Meta == << N(254, 1), Text(270, <<104, 101, 108, 108, 111, 0>>), N(274, 3), Text(305, <<65, 0>>),
           Is(282, 5, << <<0, 0, 0, 72, 0, 0, 0, 4>> >>), Ns(320, <<0, 255, 256, 65535>>),
           Is(33550, 12, << <<64, 36, 0, 0, 0, 0, 0, 0>>, <<192, 9, 33, 251, 84, 68, 45, 24>>, Zeros(8) >>),
           Is(65000, 8, << <<255, 254>>, <<1, 2>>, <<0, 3>> >>), Is(65001, 11, << <<63, 128, 0, 1>> >>) >>
Pictures == << << Image(3, 2, 2, 2, 2, <<1, 16>>, FALSE, 2, Meta \o Geo) >>,
               << Image(2, 2, 2, 1, 2, <<3, 32>>, TRUE, 3, <<>>), Image(2, 1, 2, 1, 1, <<1, 8>>, FALSE, 1, Meta) >>,
               << Image(8, 2, 8, 2, 1, <<1, 1>>, FALSE, 1, Geo) >> >>
            \o (IF Deep THEN
               << << Image(5, 3, 2, 2, 3, <<2, 32>>, TRUE, 2, Meta), Image(3, 2, 3, 2, 1, <<3, 64>>, FALSE, 3, Geo),
                     Image(1, 1, 4, 4, 1, <<1, 64>>, FALSE, 2, <<>>) >>,
                  << Image(4, 2, 2, 2, 3, <<2, 8>>, FALSE, 2, Geo \o Meta) >>,
                  << Image(3, 1, 2, 1, 2, <<2, 64>>, TRUE, 1, Meta), Image(3, 3, 1, 2, 1, <<1, 32>>, FALSE, 2, Meta) >>,
                  << Image(8, 3, 16, 2, 2, <<1, 1>>, TRUE, 1, Meta) >> >> ELSE <<>>)
Plain == [le |-> TRUE, big |-> FALSE, ord |-> "sorted", wide |-> "narrow", place |-> "front", gap |-> 0]
Offs == {"tile_offsets", "strip_offsets"}
Fixed(d) == [f |-> [nm \in FieldNames \ Offs |-> d.f[nm]], o |-> d.o, g |-> d.g]
Ref == TLCEval([i \in 1..Len(Pictures) |->
         LET ch == Chain(FileOf(LaidOut(Pictures[i], Plain)))
         IN [d \in 1..Len(ch.ds) |-> Fixed(ch.ds[d])]])

VARIABLE q
Init == \E i \in 1..Len(Pictures), le, big \in BOOLEAN : q = [kind |-> "start", i |-> i, le |-> le, big |-> big]
Next == /\ q.kind = "start"
        /\ \E L \in Layouts(IF Deep THEN {0, 1, 5} ELSE {0, 3}) :
             /\ L.le = q.le /\ L.big = q.big
             /\ LET b == LaidOut(Pictures[q.i], L)
                IN q' = [kind |-> "file", i |-> q.i, b |-> b] /\ PrintT(ToJson([i |-> q.i, b |-> b]))

SameImage ==
  q.kind = "file" =>
  LET F == FileOf(q.b)
      h == Header(F)
      ch == TLCEval(Chain(F))
      ims == Pictures[q.i]
      shown(d) == LET f == ch.ds[d].f
                      T == TLCEval(TileDesc(h, f))
                  IN [t \in 1..Len(ims[d].tiles) |->
                       LET rs == Ranges(f, W8((t - 1) % ims[d].nx), W8((t - 1) \div ims[d].nx))
                       IN Decode(T, [b \in 1..Len(rs.rs) |-> PieceOf(F, rs.rs[b]).b])]
  IN /\ ch.k = "ok" /\ Len(ch.ds) = Len(ims)
     /\ \A d \in 1..Len(ims) : Fixed(ch.ds[d]) = Ref[q.i][d]
     /\ \A d \in 1..Len(ims) : shown(d) = [t \in 1..Len(ims[d].tiles) |-> Res("ok", ims[d].tiles[t])]
=============================================================================
