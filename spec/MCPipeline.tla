----------------------------- MODULE MCPipeline -----------------------------
(***************************************************************************)
(* Every sample type x sample count x tile size x layout x predictor x     *)
(* byte order: decoding undoes what a conforming writer did; data of       *)
(* another length and predictors that are not defined are errors.  Prints  *)
(* every tile as an uncompressed file.                                     *)
(***************************************************************************)
EXTENDS Pipeline, TiffWrite, Json
CONSTANTS Deep

Types == { <<1, 1>>, <<1, 8>>, <<1, 16>>, <<1, 32>>, <<1, 64>>, <<2, 8>>, <<2, 16>>, <<2, 32>>, <<2, 64>>,
           <<3, 32>>, <<3, 64>> }
Odd == { <<3, 16>>, <<4, 8>>, <<4, 16>>, <<1, 2>>, <<1, 4>>, <<1, 12>>, <<1, 24>>, <<2, 1>>, <<3, 8>>, <<5, 64>>,
         <<6, 32>>, <<1, 128>>, <<0, 8>>, <<7, 32>>, <<1, 0>> }
Widths == IF Deep THEN 1..5 ELSE 1..3
Heights == IF Deep THEN 1..3 ELSE 1..2
Bands == IF Deep THEN 1..4 ELSE 1..3
Patterns == IF Deep THEN 1..4 ELSE 1..2

(* byte k (of n) of sample i                                                *)
SByte(p, i, k, n) ==
  CASE p = 1 -> ((37 * i + 101 * k + (i * k)) % 256)
    [] p = 2 -> IF i % 2 = 0 THEN 255 - k ELSE (3 * i + k) % 256
    [] p = 3 -> IF k = n THEN i ELSE 0
    [] p = 4 -> IF k = 1 THEN 200 + (i % 50) ELSE 255
Sample(ty, p, i) ==
  IF ty = <<1, 1>> THEN << (SByte(p, i, 1, 1) \div 2) % 2 >>
  ELSE LET n == IF ty[2] < 8 THEN 1 ELSE ty[2] \div 8
           v == [k \in 1..n |-> SByte(p, i, k, n)]
       IN IF ty[1] = 3 /\ v[1] % 128 = 127 THEN [v EXCEPT ![1] = 64] ELSE v

VARIABLE q   \* [kind, ty, w, h, s, planar, pred, le, big, p, cut]
Rec(kind, ty, w, h, s, planar, pred, le, p, cut) ==
  [kind |-> kind, ty |-> ty, w |-> w, h |-> h, s |-> s, planar |-> planar, pred |-> pred, le |-> le,
   p |-> p, cut |-> cut]
DescOf(x) ==
  [le |-> x.le, w |-> W8(x.w), h |-> W8(x.h), spp |-> W8(x.s), bits |-> [i \in 1..x.s |-> x.ty[2]],
   fmt |-> [i \in 1..x.s |-> x.ty[1]], planar |-> x.planar, pred |-> x.pred, comp |-> 1, ph |-> 1,
   jt |-> Unset, lp |-> Unset]
Samples(x) == [i \in 1..(x.w * x.h * x.s) |-> Sample(x.ty, x.p, i)]
Defined(x) == /\ x.pred = 2 => x.ty[2] \in {8, 16, 32, 64}
              /\ x.pred = 3 => x.ty[1] = 3 /\ x.ty[2] \in {16, 32, 64}
(* The stored pieces: what the writer makes of the samples, or, where no    *)
(* writer could have written it, some bytes of the right number; then cut   *)
(* or extended.                                                             *)
PiecesOf(x) ==
  LET T == DescOf(x)
      per == (x.w * x.h * (IF x.planar THEN 1 ELSE x.s) * x.ty[2] + 7) \div 8
      n == IF x.planar THEN x.s ELSE 1
      ps == IF x.ty \in Types /\ Defined(x) THEN Encode(T, TLCEval(Samples(x)))
            ELSE [b \in 1..n |-> [i \in 1..per |-> (7 * i + 50 * b) % 256]]
      at == IF x.cut % 2 = 0 THEN 1 ELSE n
  IN CASE x.kind = "whole" -> ps
       [] x.kind = "less" -> [ps EXCEPT ![at] =
                               SubSeq(@, 1, IF Len(@) > x.cut THEN Len(@) - x.cut ELSE 0)]
       [] x.kind = "more" -> [ps EXCEPT ![at] = @ \o [i \in 1..x.cut |-> i]]
       [] x.kind = "shift" ->     \* one band longer, another shorter
            [ps EXCEPT ![1] = @ \o <<1>>, ![n] = SubSeq(@, 1, Len(@) - 1)]
DirFor(x, base) ==
  LET ps == TLCEval(PiecesOf(x))
      offs == [i \in 1..Len(ps) |-> OfNat(base + Len(Cat(SubSeq(ps, 1, i - 1), 1)), 4)]
  IN << Short1(256, x.w), Short1(257, x.h), E(258, 3, [i \in 1..x.s |-> OfNat(x.ty[2], 2)]),
        Short1(259, 1), Short1(262, 1), Short1(277, x.s), Short1(284, IF x.planar THEN 2 ELSE 1),
        Short1(317, x.pred), Short1(322, x.w), Short1(323, x.h),
        E(324, 4, offs), E(325, 4, [i \in 1..Len(ps) |-> OfNat(Len(ps[i]), 4)]),
        E(339, 3, [i \in 1..x.s |-> OfNat(x.ty[1], 2)]) >>
BytesOf(x) ==
  LET big == (x.w + x.s) % 2 = 0
      base == Len(FileBytes(<<DirFor(x, 0)>>, x.le, big))
  IN FileBytes(<<DirFor(x, base)>>, x.le, big) \o Cat(PiecesOf(x), 1)

Whole(ty) ==
  {x \in {Rec("whole", ty, IF ty = <<1, 1>> THEN 8 * w ELSE w, h, s, planar, pred, le, p, 0) :
            w \in Widths, h \in Heights, s \in Bands, planar \in BOOLEAN, pred \in 1..3, le \in BOOLEAN,
            p \in Patterns} : Defined(x)}
Bent(ty) ==
  {Rec(kind, ty, IF ty = <<1, 1>> THEN 8 ELSE 2, h, s, planar, pred, le, 1, cut) :
     kind \in {"less", "more"}, h \in 1..2, s \in 1..2, planar \in BOOLEAN, pred \in 1..3, le \in {TRUE},
     cut \in IF Deep THEN 1..9 ELSE {1, 2, 4, 8, 16}}
  \cup {Rec("shift", ty, IF ty = <<1, 1>> THEN 8 ELSE 2, h, 2, TRUE, pred, le, 1, 0) :
          h \in 1..2, pred \in 1..2, le \in BOOLEAN}
Strange(ty) ==
  {Rec("whole", ty, w, 2, s, planar, pred, le, 1, 0) :
     w \in {2, 8}, s \in 1..2, planar \in BOOLEAN, pred \in 1..3, le \in BOOLEAN}

Init == \E ty \in Types \cup Odd : q = Rec("start", ty, 1, 1, 1, FALSE, 1, TRUE, 1, 0)
Next == /\ q.kind = "start"
        /\ q' \in (IF q.ty \in Types THEN Whole(q.ty) \cup Bent(q.ty) ELSE Strange(q.ty))
        /\ PrintT(ToJson([b |-> BytesOf(q')]))

(* 1. a conforming tile decodes to its samples; 2. another length is an     *)
(* error unless it is bool data with bits to spare; 3. the file denotes     *)
(* the tile description.                                                    *)
Undoes ==
  q.kind # "start" =>
  LET T == DescOf(q)
      ps == TLCEval(PiecesOf(q))
      r == TLCEval(Decode(T, ps))
  IN /\ (q.kind = "whole" /\ q.ty \in Types) =>
          r = Res("ok", Samples(q)) /\ Len(r.e) = q.w * q.h * q.s
     /\ (q.kind \in {"less", "shift"}) => r.k = "err"
     /\ (q.kind = "more") => r.k = "err" \/ (q.ty = <<1, 1>> /\ ~q.planar /\ r.k = "open" /\ r.e = Samples(q))
     /\ (~Defined(q) /\ q.pred = 2) => r.k = "err"
     /\ (q.pred = 3 /\ q.ty[2] \notin {16, 32, 64}) => r.k = "err"
     /\ q.ty \in Odd => TypeOf(T) = "none" /\ r.k # "ok"
FileSays ==
  (q.kind # "start" /\ q.kind # "whole") =>
  LET F == FileOf(BytesOf(q))
      ch == Chain(F)
  IN /\ ch.k = "ok" /\ Len(ch.ds) = 1
     /\ TileDesc(Header(F), ch.ds[1].f) = DescOf(q)
     /\ LET rs == Ranges(ch.ds[1].f, W8(0), W8(0))
        IN rs.k = "ok" /\ [i \in 1..Len(rs.rs) |-> PieceOf(F, rs.rs[i]).b] = PiecesOf(q)
=============================================================================
