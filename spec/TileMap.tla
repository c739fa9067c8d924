------------------------------ MODULE TileMap ------------------------------
(***************************************************************************)
(* From tile positions to byte ranges.  fs maps field names to [s, v] as   *)
(* in TiffDir; positions are 8-byte words.                                 *)
(***************************************************************************)
EXTENDS TiffFile

IsSet(fs, nm) == fs[nm].s = "set"
Wide(fs, nm) == Ext(fs[nm].v[1], 8)

(* [k, nx, ny]: "none" if the image is not tiled, "any" if a tile has no   *)
(* extent.                                                                  *)
Grid(fs) ==
  IF ~IsSet(fs, "tile_width") \/ ~IsSet(fs, "tile_height")
  THEN [k |-> "none", nx |-> W8(0), ny |-> W8(0)]
  ELSE IF IsZero(Wide(fs, "tile_width")) \/ IsZero(Wide(fs, "tile_height"))
  THEN [k |-> "any", nx |-> W8(0), ny |-> W8(0)]
  ELSE [k |-> "ok", nx |-> CeilDiv(Wide(fs, "image_width"), Wide(fs, "tile_width")),
        ny |-> CeilDiv(Wide(fs, "image_height"), Wide(fs, "tile_height"))]

(* The range recorded at (0-based) index i: <<from, to>> or <<>>.           *)
Recorded(fs, i) ==
  LET os == fs["tile_offsets"].v
      bs == fs["tile_byte_counts"].v
  IN IF ~IsNat(i) \/ ToNat(i) >= Len(os) \/ ToNat(i) >= Len(bs) THEN <<>>
     ELSE LET o == os[ToNat(i) + 1]
              n == bs[ToNat(i) + 1]
          IN IF AddOv(o, n) THEN <<>> ELSE <<o, Add(o, n)>>

NoTile == [k |-> "none", rs |-> <<>>]
Planar(fs) == fs["planar_configuration"].v[1] = <<0, 2>>
RangesIn(fs, g, x, y) ==
  LET spp == ToNat(fs["samples_per_pixel"].v[1])
      row == MulW(y, g.nx)
      idx == Add(row.w, x)
      bad == row.ov \/ AddOv(row.w, x)
      per == MulW(g.nx, g.ny)
      n == IF Planar(fs) THEN spp ELSE 1
      at(b) == LET m == Mul(per.w, b)      \* index of the tile in band b
               IN IF b = 0 \/ bad THEN [ok |-> ~bad, i |-> idx]
                  ELSE [ok |-> ~bad /\ ~per.ov /\ m.c = 0 /\ ~AddOv(m.w, idx), i |-> Add(m.w, idx)]
      rs == [b \in 1..n |-> LET a == at(b - 1) IN IF a.ok THEN Recorded(fs, a.i) ELSE <<>>]
  IN IF g.k # "ok" \/ ~IsSet(fs, "tile_offsets") \/ ~IsSet(fs, "tile_byte_counts") THEN NoTile
     ELSE IF ~Lt(x, g.nx) \/ ~Lt(y, g.ny) THEN NoTile
     ELSE IF n > Len(fs["tile_offsets"].v) THEN NoTile        \* not one per band
     ELSE IF \E b \in 1..n : rs[b] = <<>> THEN NoTile
     ELSE [k |-> "ok", rs |-> rs]

Ranges(fs, x, y) == RangesIn(fs, TLCEval(Grid(fs)), x, y)

(* All or nothing for a list of positions xy (pairs of words).             *)
RangesOf(fs, xy) ==
  LET g == TLCEval(Grid(fs))
      each == TLCEval([i \in 1..Len(xy) |-> RangesIn(fs, g, xy[i][1], xy[i][2])])
  IN IF \E i \in 1..Len(xy) : each[i].k = "none" THEN [k |-> "none", ts |-> <<>>]
     ELSE [k |-> "ok", ts |-> [i \in 1..Len(xy) |-> each[i].rs]]
=============================================================================
