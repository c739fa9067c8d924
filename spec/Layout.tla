------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Ways to lay out the same images in a file.                              *)
(*                                                                         *)
(* An image is [attrs, tw, th, nx, ny, spp, ty, planar, pred, tiles]:      *)
(* attrs is a sequence of [tag, ty, vs], ty = 0 for unsigned numbers (of   *)
(* which the layout chooses the width; vs are 8-byte words), else the      *)
(* field type; tiles are the samples of each tile in array order.          *)
(* A layout is [le, big, ord, wide, place, gap]: byte order, variant,      *)
(* order of entries, width of numbers, order of blocks, bytes in between.  *)
(***************************************************************************)
EXTENDS Pipeline, TiffWrite

UnsignedTypes == <<1, 3, 4, 16>>
Fit(w8, ty) == Fits(w8, TypeSize(ty))
(* The field type for the numbers vs.                                      *)
NumType(vs, wide) ==
  LET ok == {i \in 1..4 : \A k \in 1..Len(vs) : Fit(vs[k], UnsignedTypes[i])}
      least == CHOOSE i \in ok : \A k \in ok : i <= k
      pick == CASE wide = "narrow" -> least
                [] wide = "middle" -> IF least < 4 THEN least + 1 ELSE 4
                [] wide = "widest" -> 4
  IN UnsignedTypes[pick]
Written(a, wide) ==
  IF a.ty # 0 THEN E(a.tag, a.ty, a.vs)
  ELSE LET ty == NumType(a.vs, wide)
       IN E(a.tag, ty, [i \in 1..Len(a.vs) |-> Ext(a.vs[i], TypeSize(ty))])

DescIn(im, le) ==
  [le |-> le, w |-> W8(im.tw), h |-> W8(im.th), spp |-> W8(im.spp), bits |-> [i \in 1..im.spp |-> im.ty[2]],
   fmt |-> [i \in 1..im.spp |-> im.ty[1]], planar |-> im.planar, pred |-> im.pred, comp |-> 1, ph |-> 1,
   jt |-> Unset, lp |-> Unset]
(* Stored pieces in the order of the offsets: band after band, row by row. *)
Stock(im, le) ==
  LET T == DescIn(im, le)
      ps == TLCEval([t \in 1..Len(im.tiles) |-> Encode(T, im.tiles[t])])
      nb == IF im.planar THEN im.spp ELSE 1
      nt == Len(im.tiles)
  IN TLCEval([k \in 1..(nb * nt) |-> ps[((k - 1) % nt) + 1][((k - 1) \div nt) + 1]])

Arrange(es, ord) ==
  CASE ord = "sorted" -> es
    [] ord = "reversed" -> Rev(es)
    [] ord = "rotated" -> LET n == Len(es) \div 2 IN SubSeq(es, n + 1, Len(es)) \o SubSeq(es, 1, n)

(* Entries of an image: offs gives the places of its pieces.               *)
OffType(L) == IF L.big /\ L.wide = "widest" THEN 16 ELSE 4
EntriesOf(im, L, stock, offs) ==
  LET ot == OffType(L)
  IN Arrange([i \in 1..Len(im.attrs) |-> Written(im.attrs[i], L.wide)]
             \o << E(324, ot, [k \in 1..Len(stock) |-> OfNat(offs[k], TypeSize(ot))]),
                   Written([tag |-> 325, ty |-> 0, vs |-> [k \in 1..Len(stock) |-> W8(Len(stock[k]))]], L.wide) >>,
             L.ord)

(* Blocks <<kind, image, k>> in file order.                                *)
RECURSIVE CatS(_, _)
CatS(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o CatS(ss, i + 1)
BlocksOf(ims, ess, stocks, L) ==
  LET dir(d) == << <<"dir", d, 0>> >>
      out == [d \in 1..Len(ims) |-> SelectSeq([k \in 1..Len(ess[d]) |-> k], LAMBDA k : ~Inline(ess[d][k].v, L.big))]
      vals(d) == [i \in 1..Len(out[d]) |-> <<"val", d, out[d][i]>>]
      data(d) == [k \in 1..Len(stocks[d]) |-> <<"data", d, k>>]
      n == Len(ims)
  IN CASE L.place = "front" -> CatS([d \in 1..n |-> dir(d)], 1) \o CatS([d \in 1..n |-> vals(d)], 1)
                               \o CatS([d \in 1..n |-> data(d)], 1)
       [] L.place = "back" -> CatS([d \in 1..n |-> Rev(data(d))], 1) \o CatS([d \in 1..n |-> Rev(vals(d))], 1)
                              \o Rev(CatS([d \in 1..n |-> dir(d)], 1))
       [] L.place = "mixed" -> CatS(Rev([d \in 1..n |-> vals(d) \o data(d) \o dir(d)]), 1)

LaidOut(ims, L) ==
  LET stocks == TLCEval([d \in 1..Len(ims) |-> Stock(ims[d], L.le)])
      draft == TLCEval([d \in 1..Len(ims) |-> EntriesOf(ims[d], L, stocks[d], [k \in 1..Len(stocks[d]) |-> 0])])
      bs == TLCEval(BlocksOf(ims, draft, stocks, L))
      size(b) == CASE b[1] = "dir" -> DirSize(Len(draft[b[2]]), L.big)
                   [] b[1] = "val" -> OutSize(draft[b[2]][b[3]].v, L.big)
                   [] b[1] = "data" -> Len(stocks[b[2]][b[3]])
      RECURSIVE places(_, _, _)
      places(i, at, acc) == IF i > Len(bs) THEN acc
                            ELSE places(i + 1, at + size(bs[i]) + L.gap, Append(acc, at))
      pos == TLCEval(places(1, HeaderSize(L.big) + L.gap, <<>>))
      where(b) == pos[CHOOSE i \in 1..Len(bs) : bs[i] = b]
      ess == TLCEval([d \in 1..Len(ims) |->
                EntriesOf(ims[d], L, stocks[d], [k \in 1..Len(stocks[d]) |-> where(<<"data", d, k>>)])])
      dirbytes(d) ==
        Msb(OfNat(Len(ess[d]), CountSize(L.big)), L.le)
        \o Flat([k \in 1..Len(ess[d]) |->
                 EntryBytes(ess[d][k].tag, ess[d][k].v, L.le, L.big,
                            IF Inline(ess[d][k].v, L.big) THEN W8(0) ELSE W8(where(<<"val", d, k>>)))])
        \o Msb(OfNat(IF d < Len(ims) THEN where(<<"dir", d + 1, 0>>) ELSE 0, FieldSize(L.big)), L.le)
      bytes(b) == CASE b[1] = "dir" -> dirbytes(b[2])
                    [] b[1] = "val" -> Stored(ess[b[2]][b[3]].v, L.le)
                    [] b[1] = "data" -> stocks[b[2]][b[3]]
  IN HeaderBytes(L.le, L.big, W8(where(<<"dir", 1, 0>>))) \o Zeros(L.gap)
     \o Flat(TLCEval([i \in 1..Len(bs) |-> bytes(bs[i]) \o Zeros(L.gap)]))

Layouts(gaps) ==
  {[le |-> le, big |-> big, ord |-> o, wide |-> wd, place |-> p, gap |-> g] :
     le \in BOOLEAN, big \in BOOLEAN, o \in {"sorted", "reversed", "rotated"},
     wd \in {"narrow", "middle", "widest"}, p \in {"front", "back", "mixed"}, g \in gaps}
=============================================================================
