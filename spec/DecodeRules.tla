---------------------------- MODULE DecodeRules ----------------------------
(***************************************************************************)
(* What a fetched and decoded tile t of the file o.file, decoded with the  *)
(* registry o.reg, has to be: position, outcome, the calls the user's      *)
(* decoders saw, and where known the uncompressed pieces (t.raw).          *)
(***************************************************************************)
EXTENDS Pipeline, Decoders

CallOk(T, c, a, piece) ==
  /\ c.id = a.id /\ c.b = piece
  /\ c.ph = T.ph /\ c.bits = T.bits[1]
  /\ c.spp = (IF T.planar THEN 1 ELSE ToNat(T.spp))
  /\ FieldAgrees(T.jt, c.jt) /\ FieldAgrees(T.lp, c.lp)

(* JPEG: the component values (given) after the colour conversion that     *)
(* the photometric interpretation asks for: per byte a range.              *)
Clamp(v) == IF v < 0 THEN 0 ELSE IF v > 255 THEN 255 ELSE v
Around(v, t) == << Clamp(v - t), Clamp(v + t) >>
Exactly(v) == << v, v >>
YccToRgb(y, cb, cr) ==     \* in thousandths, rounded
  << (1000 * y + 1402 * (cr - 128) + 500) \div 1000,
     (1000 * y - 344 * (cb - 128) - 714 * (cr - 128) + 500) \div 1000,
     (1000 * y + 1772 * (cb - 128) + 500) \div 1000 >>
JpegRanges(ph, n, comps) ==
  IF ph = 6 /\ n = 3
  THEN [i \in 1..Len(comps) |->
         LET p == ((i - 1) \div 3) * 3
             rgb == YccToRgb(comps[p + 1], comps[p + 2], comps[p + 3])
         IN Around(rgb[((i - 1) % 3) + 1], 2)]
  ELSE IF ph = 5 /\ n = 4 THEN [i \in 1..Len(comps) |-> Exactly(255 - comps[i])]
  ELSE [i \in 1..Len(comps) |-> Exactly(comps[i])]
JpegDefined(ph, n) == \/ n = 1 /\ ph \in {0, 1, 2, 4, 5, 6}
                      \/ n = 3 /\ ph \in {2, 6}
                      \/ n = 4 /\ ph = 5
JpegAgrees(T, ps, d) ==
  LET n == IF T.planar THEN 1 ELSE ToNat(T.spp)
      want == TLCEval(Cat([b \in 1..Len(ps) |-> JpegRanges(T.ph, n, ps[b])], 1))
  IN IF T.ph \in {3, 8} THEN d.r = "err"
     ELSE IF ~JpegDefined(T.ph, n) THEN d.r = "err" \/ (d.r = "ok" /\ WellFormed(T, d))
     ELSE /\ d.r = "ok" /\ WellFormed(T, d) /\ Len(d.e) = Len(want)
          /\ \A i \in 1..Len(want) : d.e[i] >= want[i][1] /\ d.e[i] <= want[i][2]

TileAgrees(o, h, d, t) ==
  LET T == TLCEval(TileDesc(h, d.f))
      rs == TLCEval(Ranges(d.f, t.xy[1], t.xy[2]))
      got == TLCEval([b \in 1..Len(rs.rs) |-> PieceOf(o.file, rs.rs[b])])
      ps == TLCEval([b \in 1..Len(got) |-> got[b].b])
      u == AddedFor(o.reg, T.comp)
      as == TLCEval([k \in 1..Len(ps) |-> Answer(o.reg.add[u], ps, k)])
      bad == FirstErr(as)
  IN IF rs.k # "ok" \/ \E b \in 1..Len(got) : got[b].k # "ok" THEN t.f = "err"
     ELSE /\ t.f = "ok"
          /\ IF u # 0
             THEN /\ \/ Len(t.calls) = CallCount(as)
                     \/ t.d.r = "err" /\ Len(t.calls) <= Len(ps)     \* a wrong piece ends it
                  /\ \A k \in 1..Len(t.calls) : CallOk(T, t.calls[k], o.reg.add[u], ps[k])
                  /\ IF bad # 0 THEN t.d.r = "err"
                     ELSE DecodeAgrees(T, Decode(T, [k \in 1..Len(as) |-> as[k].b]), t.d)
             ELSE /\ t.calls = <<>>
                  /\ IF Chosen(o.reg, T.comp) = "nothing" THEN t.d.r = "err"
                     ELSE IF T.comp = 1 THEN DecodeAgrees(T, Decode(T, ps), t.d)
                     ELSE IF t.raw.p = 0      \* nothing known about the compressed data
                     THEN t.d.r = "err" \/ (t.d.r = "ok" /\ WellFormed(T, t.d))
                     ELSE IF T.comp = 7 THEN JpegAgrees(T, t.raw.b, t.d)
                     ELSE DecodeAgrees(T, Decode(T, t.raw.b), t.d)
=============================================================================
