------------------------------ MODULE MCTiles ------------------------------
(***************************************************************************)
(* Every small tile grid: image and tile sizes, interleaved and band-      *)
(* separate, with complete and incomplete offset lists.  The grid is the   *)
(* smallest that covers the image, different positions have different      *)
(* ranges, every recorded range belongs to one position, and positions     *)
(* outside of the grid have none.  Prints the files with the questions to  *)
(* ask.                                                                    *)
(***************************************************************************)
EXTENDS Session, TiffWrite, TLC, Json
CONSTANTS Deep

MaxDim == IF Deep THEN 7 ELSE 5
VARIABLE q      \* [kind, w, h, tw, th, spp, planar, miss, le, big]

Up(a, b) == (a + b - 1) \div b
Nx(x) == Up(x.w, x.tw)
Ny(x) == Up(x.h, x.th)
Bands(x) == IF x.planar THEN x.spp ELSE 1
Count(x) == Nx(x) * Ny(x) * Bands(x)
(* Recorded numbers; miss of them are missing at the end of one list.      *)
Offsets(x, n) == [i \in 1..n |-> OfNat(1000 + 17 * i, 4)]
Counts(x, n) == [i \in 1..n |-> OfNat(i + 2, 4)]
OffN(x) == IF x.miss < 0 THEN Count(x) ELSE Count(x) - x.miss
CntN(x) == IF x.miss < 0 THEN Count(x) + x.miss ELSE Count(x)
Entries(x) ==
  << Short1(256, x.w), Short1(257, x.h), E(258, 3, [i \in 1..x.spp |-> OfNat(8, 2)]), Short1(262, 1),
     Short1(277, x.spp), Short1(284, IF x.planar THEN 2 ELSE 1),
     Short1(322, x.tw), Short1(323, x.th),
     E(324, 4, Offsets(x, OffN(x))), E(325, 4, Counts(x, CntN(x))) >>
Bytes(x) == LET e == TLCEval(<<Entries(x)>>) IN TLCEval(FileBytes(e, x.le, x.big))

Positions(x) == [i \in 1..((Nx(x) + 1) * (Ny(x) + 1)) |->
                   << W8((i - 1) % (Nx(x) + 1)), W8((i - 1) \div (Nx(x) + 1)) >>]
Inside(x) == [i \in 1..(Nx(x) * Ny(x)) |-> << W8((i - 1) % Nx(x)), W8((i - 1) \div Nx(x)) >>]
Ops(x) == << [op |-> "open"], [op |-> "all"], [op |-> "count", d |-> 1],
             [op |-> "ranges", d |-> 1, xy |-> Positions(x)],
             [op |-> "ranges", d |-> 1, xy |-> Rev(Inside(x))] >>

Init == \E w, h \in 1..MaxDim :
          q = [kind |-> "start", w |-> w, h |-> h, tw |-> 1, th |-> 1, spp |-> 1, planar |-> FALSE,
               miss |-> 0, le |-> TRUE, big |-> FALSE]
Next ==
  /\ q.kind = "start"
  /\ \E tw, th \in 1..(MaxDim - 1), spp \in 1..3, planar \in BOOLEAN, miss \in {-1, 0, 1} :
       /\ q' = [q EXCEPT !.kind = "file", !.tw = tw, !.th = th, !.spp = spp, !.planar = planar,
                         !.miss = miss, !.le = (tw + spp) % 2 = 0, !.big = (th + spp) % 2 = 0]
       /\ Count(q') <= 40 /\ (Deep \/ (tw + 3 * th + 5 * q.w + 7 * q.h + spp + miss) % 4 = 0)
       /\ PrintT(ToJson([b |-> Bytes(q'), ops |-> Ops(q')]))

Fs(x) == Chain(FileOf(Bytes(x))).ds[1].f
Mapped ==
  q.kind = "file" =>
    LET fs == TLCEval(Fs(q))
        g == Grid(fs)
        nx == ToNat(g.nx)
        ny == ToNat(g.ny)
        pos == {<<x, y>> : x \in 0..(nx + 1), y \in 0..(ny + 1)}
        rs == TLCEval([p \in pos |-> Ranges(fs, W8(p[1]), W8(p[2]))])
        all == UNION {{rs[p].rs[b] : b \in 1..Len(rs[p].rs)} : p \in pos}
    IN /\ nx * q.tw >= q.w /\ (nx - 1) * q.tw < q.w          \* the smallest cover
       /\ ny * q.th >= q.h /\ (ny - 1) * q.th < q.h
       /\ \A p \in pos :
            IF p[1] < nx /\ p[2] < ny
            THEN \/ rs[p].k = "ok" /\ Len(rs[p].rs) = Bands(q)
                 \/ rs[p].k = "none" /\ q.miss # 0
            ELSE rs[p].k = "none"
       /\ Cardinality(all) = Bands(q) * Cardinality({p \in pos : rs[p].k = "ok"})  \* all different
       /\ q.miss = 0 => Cardinality(all) = Count(q)           \* all recorded ranges are reachable
       /\ q.miss # 0 => Cardinality({p \in pos : rs[p].k = "ok"}) = nx * ny - 1
       (* row-major order, bands outermost *)
       /\ \A p \in pos : rs[p].k = "ok" =>
            \A b \in 1..Bands(q) :
              rs[p].rs[b][1] = W8(1000 + 17 * ((b - 1) * nx * ny + p[2] * nx + p[1] + 1))
=============================================================================
