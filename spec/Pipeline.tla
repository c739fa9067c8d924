------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* From the stored pieces of a tile to its samples, and back.              *)
(*                                                                         *)
(* A tile description is                                                   *)
(*   [le, w, h, spp, bits, fmt, planar, pred, comp, ph, jt, lp]            *)
(* w, h, spp: words; bits, fmt: per sample, numbers; pred, comp, ph:       *)
(* codes; jt, lp: JPEG tables and LERC parameters as optional fields.      *)
(* Samples are words, most significant byte first.                         *)
(***************************************************************************)
EXTENDS Session

Nums(ws) == [i \in 1..Len(ws) |-> ToNat(ws[i])]
TileDesc(h, fs) ==
  [le |-> h.le,
   w |-> Ext(fs[IF fs["tile_width"].s = "set" THEN "tile_width" ELSE "image_width"].v[1], 8),
   h |-> Ext(fs[IF fs["tile_height"].s = "set" THEN "tile_height" ELSE "image_height"].v[1], 8),
   spp |-> Ext(fs["samples_per_pixel"].v[1], 8),
   bits |-> Nums(fs["bits_per_sample"].v),
   fmt |-> Nums(fs["sample_format"].v),
   planar |-> Planar(fs),
   pred |-> IF fs["predictor"].s = "set" THEN ToNat(fs["predictor"].v[1]) ELSE 1,
   comp |-> ToNat(fs["compression"].v[1]),
   ph |-> ToNat(fs["photometric_interpretation"].v[1]),
   jt |-> fs["jpeg_tables"],
   lp |-> fs["lerc_parameters"]]

(* The element type: sample format and bit depth, equal for all samples.   *)
TypeOf(T) ==
  LET f == T.fmt[1]
      b == T.bits[1]
  IN IF T.fmt = <<>> \/ T.bits = <<>> THEN "none"
     ELSE IF \E i \in 1..Len(T.fmt) : T.fmt[i] # f THEN "none"
     ELSE IF \E i \in 1..Len(T.bits) : T.bits[i] # b THEN "none"
     ELSE CASE f = 1 /\ b = 1 -> "bool"
            [] f = 1 /\ b = 8 -> "u8" [] f = 1 /\ b = 16 -> "u16"
            [] f = 1 /\ b = 32 -> "u32" [] f = 1 /\ b = 64 -> "u64"
            [] f = 2 /\ b = 8 -> "i8" [] f = 2 /\ b = 16 -> "i16"
            [] f = 2 /\ b = 32 -> "i32" [] f = 2 /\ b = 64 -> "i64"
            [] f = 3 /\ b = 32 -> "f32" [] f = 3 /\ b = 64 -> "f64"
            [] OTHER -> "none"

Shape(T) == IF T.planar THEN <<T.spp, T.h, T.w>> ELSE <<T.h, T.w, T.spp>>
(* Number of samples: [w, ov].                                             *)
Count(T) == LET a == MulW(T.h, T.w)
                b == MulW(a.w, T.spp)
            IN [w |-> b.w, ov |-> b.ov \/ (a.ov /\ ~IsZero(T.spp))]
(* Small enough to compute with.                                           *)
Tame(T) == LET c == Count(T)
           IN ~c.ov /\ IsNat(c.w) /\ ToNat(c.w) < 100000 /\ ~IsZero(c.w)
(* Samples that a row's predictor and layout run over.                     *)
Group(T) == IF T.planar THEN 1 ELSE ToNat(T.spp)

RECURSIVE Cat(_, _)
Cat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i] \o Cat(ps, i + 1)

(* Undoing the horizontal predictor on the samples of a row, g samples per  *)
(* pixel.                                                                   *)
RECURSIVE Summed(_, _, _, _)
Summed(ws, g, i, acc) ==
  IF i > Len(ws) THEN acc
  ELSE Summed(ws, g, i + 1, Append(acc, IF i <= g THEN ws[i] ELSE Add(ws[i], acc[i - g])))
(* The floating point predictor: byte differences over the byte planes.     *)
RECURSIVE SummedBytes(_, _, _, _)
SummedBytes(b, g, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE SummedBytes(b, g, i + 1, Append(acc, IF i <= g THEN b[i] ELSE (b[i] + acc[i - g]) % 256))
FloatRow(b, g, n) ==            \* n bytes per sample
  LET s == TLCEval(SummedBytes(b, g, 1, <<>>))
      m == Len(b) \div n
  IN [i \in 1..m |-> [k \in 1..n |-> s[(k - 1) * m + i]]]
SampleRow(b, T, n) == LET ps == Pieces(b, n) IN [i \in 1..Len(ps) |-> Msb(ps[i], T.le)]

(* The samples denoted by whole rows of stored bytes.                      *)
Rows(T, data, n) ==
  LET stride == ToNat(T.w) * Group(T) * n
      rows == TLCEval(Pieces(data, stride))
      one(r) == CASE T.pred = 1 -> SampleRow(r, T, n)
                  [] T.pred = 2 -> Summed(TLCEval(SampleRow(r, T, n)), Group(T), 1, <<>>)
                  [] T.pred = 3 -> FloatRow(r, Group(T), n)
  IN Cat(TLCEval([i \in 1..Len(rows) |-> one(rows[i])]), 1)

Bit(b, i) == (b \div Pow2[8 - i]) % 2            \* i = 0: most significant
Bools(data, n) == [i \in 1..n |-> << Bit(data[((i - 1) \div 8) + 1], (i - 1) % 8) >>]

(***************************************************************************)
(* Decoding the uncompressed pieces ps: [k, e] with k                      *)
(*   "ok"     the samples e                                                *)
(*   "err"    an error                                                     *)
(*   "open"   an error or the samples e                                    *)
(*   "loose"  an error or an array of the declared type, shape and count   *)
(***************************************************************************)
Res(k, e) == [k |-> k, e |-> e]
PieceLen(T) == LET c == MulW(T.h, T.w)
                   b == MulW(c.w, OfNat(T.bits[1], 8))
                   s == Add(b.w, W8(7))
               IN [ok |-> ~c.ov /\ ~b.ov /\ ~AddOv(b.w, W8(7)), w |-> s]
(* does a piece of n bytes hold one band exactly                            *)
BandFits(T, n) ==
  LET p == PieceLen(T)
      lo == W8(8 * n)
  IN p.ok /\ Le(lo, p.w) /\ Lt(p.w, Add(lo, W8(8)))
Decode(T, ps) ==
  LET data == TLCEval(Cat(ps, 1))
      bits == T.bits[1]
      n == bits \div 8
      ty == TypeOf(T)
      cnt == ToNat(Count(T).w)
      stride == ToNat(T.w) * Group(T) * n
  IN IF ps = <<>> THEN Res("loose", <<>>)       \* no bands: nothing to undo
     ELSE IF T.planar /\ \E i \in 1..Len(ps) : ~BandFits(T, Len(ps[i])) THEN Res("err", <<>>)
     ELSE IF T.pred = 2 /\ bits \notin {8, 16, 32, 64} THEN Res("err", <<>>)
     ELSE IF T.pred = 3 /\ bits \notin {16, 32, 64} THEN Res("err", <<>>)
     ELSE IF ~Tame(T) THEN Res("loose", <<>>)
     ELSE IF T.pred # 1 /\ Len(data) % stride # 0 THEN Res("err", <<>>)
     ELSE IF ty = "bool"
     THEN IF 8 * Len(data) < cnt THEN Res("err", <<>>)
          ELSE IF (ToNat(T.w) * Group(T)) % 8 # 0 /\ ToNat(T.h) * (IF T.planar THEN ToNat(T.spp) ELSE 1) # 1
          THEN Res("loose", <<>>)
          ELSE Res(IF 8 * Len(data) >= cnt + 8 THEN "open" ELSE "ok", Bools(data, cnt))
     ELSE IF ty = "none"
     THEN IF \A i \in 1..Len(T.bits) : T.bits[i] = 8
          THEN IF Len(data) # cnt THEN Res("err", <<>>)
               ELSE Res("open", Rows(T, data, 1))
          ELSE Res("loose", <<>>)
     ELSE IF Len(data) # cnt * n THEN Res("err", <<>>)
     ELSE IF T.pred = 3 /\ T.fmt[1] # 3 THEN Res("open", Rows(T, data, n))
     ELSE Res("ok", Rows(T, data, n))

(***************************************************************************)
(* A conforming writer: samples in array order to the pieces of the tile.  *)
(***************************************************************************)
Diffed(ws, g) == [i \in 1..Len(ws) |-> IF i <= g THEN ws[i] ELSE Minus(ws[i], ws[i - g])]
DiffedBytes(b, g) == [i \in 1..Len(b) |-> IF i <= g THEN b[i] ELSE (b[i] - b[i - g] + 256) % 256]
StoreRow(T, ws) ==
  LET n == Len(ws[1])
      m == Len(ws)
  IN CASE T.pred = 1 -> Cat([i \in 1..m |-> Msb(ws[i], T.le)], 1)
       [] T.pred = 2 -> LET d == Diffed(ws, Group(T)) IN Cat([i \in 1..m |-> Msb(d[i], T.le)], 1)
       [] T.pred = 3 -> DiffedBytes([j \in 1..(m * n) |-> ws[((j - 1) % m) + 1][((j - 1) \div m) + 1]],
                                    Group(T))
PackBits(bs) == [j \in 1..((Len(bs) + 7) \div 8) |->
                  LET at(k) == IF (j - 1) * 8 + k <= Len(bs) THEN bs[(j - 1) * 8 + k][1] ELSE 0
                  IN at(1) * 128 + at(2) * 64 + at(3) * 32 + at(4) * 16 + at(5) * 8 + at(6) * 4
                     + at(7) * 2 + at(8)]
Encode(T, samples) ==
  LET per == ToNat(T.w) * Group(T)
      rows == Pieces(samples, per)
      bands == IF T.planar THEN Pieces(rows, ToNat(T.h)) ELSE <<rows>>
      one(rs) == Cat(TLCEval([i \in 1..Len(rs) |->
                   IF TypeOf(T) = "bool" THEN PackBits(rs[i]) ELSE StoreRow(T, rs[i])]), 1)
  IN TLCEval([b \in 1..Len(bands) |-> one(bands[b])])

(***************************************************************************)
(* Agreement with an observed decode                                       *)
(*   d.r  "ok" / "err"; d.ty, d.sh, d.e (flat bytes of the elements, most  *)
(*   significant first), d.b (byte view), d.nd [r, ty, sh, e]              *)
(***************************************************************************)
ElemSize(ty) == CASE ty \in {"bool", "u8", "i8", "none"} -> 1 [] ty \in {"u16", "i16"} -> 2
                  [] ty \in {"u32", "i32", "f32"} -> 4 [] ty \in {"u64", "i64", "f64"} -> 8
RECURSIVE FlatWords(_, _)
FlatWords(ws, i) == IF i > Len(ws) THEN <<>> ELSE ws[i] \o FlatWords(ws, i + 1)
Native(e, n) == IF n = 1 THEN e
                ELSE [i \in 1..Len(e) |-> e[((i - 1) \div n) * n + n - ((i - 1) % n)]]
WellFormed(T, d) ==
  LET c == Count(T)
      ty == TypeOf(T)
      n == ElemSize(ty)
      total == Mul(c.w, n)
  IN /\ d.ty = ty /\ d.sh = Shape(T)
     /\ ~c.ov /\ total.c = 0 /\ total.w = W8(Len(d.e))
     /\ d.b = Native(d.e, n)
     /\ IF ty = "none" THEN d.nd.r = "err"
        ELSE \/ /\ IsZero(c.w) /\ d.nd.r = "err"     \* ndarray limits the dimensions even of no elements
             \/ d.nd.r = "ok" /\ d.nd.ty = ty /\ d.nd.sh = Shape(T) /\ d.nd.e = d.e
     /\ ty = "bool" => \A i \in 1..Len(d.e) : d.e[i] \in {0, 1}
DecodeAgrees(T, x, d) ==
  \/ x.k \in {"err", "open", "loose"} /\ d.r = "err"
  \/ x.k \in {"ok", "open"} /\ d.r = "ok" /\ WellFormed(T, d) /\ d.e = FlatWords(x.e, 1)
  \/ x.k = "loose" /\ d.r = "ok" /\ WellFormed(T, d)
=============================================================================
