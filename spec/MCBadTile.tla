----------------------------- MODULE MCBadTile -----------------------------
(***************************************************************************)
(* Directories that describe their tiles in any way, absurd dimensions,    *)
(* bit depths and sample counts included, and tiles holding any number of  *)
(* bytes: decoding is defined, and its result, if any, has the declared    *)
(* number of elements.  Prints every such tile as a file.                  *)
(***************************************************************************)
EXTENDS Pipeline, TiffWrite, Json
CONSTANTS Deep

Top == <<255, 255, 255, 255>>
Half == <<128, 0, 0, 0>>
D(n) == OfNat(n, 4)
Dims == {<<D(1), D(1)>>, <<D(2), D(3)>>, <<D(0), D(2)>>, <<D(2), D(0)>>, <<Top, D(1)>>, <<D(1), Top>>, <<Top, Top>>}
        \cup (IF Deep THEN {<<D(8), D(2)>>, <<D(0), D(0)>>, <<Half, Half>>, <<D(65536), D(65536)>>, <<Half, D(2)>>} ELSE {})
Bits == {0, 1, 8, 12, 16, 65535} \cup (IF Deep THEN {2, 7, 24, 32, 64, 128, 32768} ELSE {})
Fmts == {0, 1, 3} \cup (IF Deep THEN {2, 4, 6, 65535} ELSE {})
Spps == {0, 1, 3, 65535}
Lens == {0, 1, 6, 12} \cup (IF Deep THEN {2, 3, 8, 18, 48} ELSE {})

VARIABLE q
Init == \E d \in Dims, b \in Bits : q = [kind |-> "start", d |-> d, b |-> b]
Next == /\ q.kind = "start"
        /\ \E f \in Fmts, s \in Spps, planar \in BOOLEAN, pred \in 1..3, n \in Lens, le \in (IF Deep THEN BOOLEAN ELSE {TRUE}) :
             q' = [kind |-> "tile", d |-> q.d, b |-> q.b, f |-> f, s |-> s, planar |-> planar, pred |-> pred, n |-> n,
                   le |-> le]
NBands(x) == IF x.planar THEN (IF x.s = 65535 THEN 2 ELSE x.s) ELSE 1
NList(x) == IF x.s = 3 THEN 3 ELSE 1
PiecesOf(x) == [k \in 1..NBands(x) |-> [i \in 1..x.n |-> (31 * i + 7 * k) % 256]]
DirFor(x, base) ==
  LET m == NBands(x)
  IN << E(256, 4, <<x.d[1]>>), E(257, 4, <<x.d[2]>>), E(258, 3, [i \in 1..NList(x) |-> OfNat(x.b, 2)]),
        Short1(259, 1), Short1(262, 1), Short1(277, x.s), Short1(284, IF x.planar THEN 2 ELSE 1),
        Short1(317, x.pred), E(322, 4, <<x.d[1]>>), E(323, 4, <<x.d[2]>>),
        E(324, 4, [i \in 1..m |-> OfNat(base + (i - 1) * x.n, 4)]), E(325, 4, [i \in 1..m |-> OfNat(x.n, 4)]),
        E(339, 3, [i \in 1..NList(x) |-> OfNat(x.f, 2)]) >>
BytesOf(x) ==
  LET base == Len(FileBytes(<<DirFor(x, 0)>>, x.le, FALSE))
  IN FileBytes(<<DirFor(x, base)>>, x.le, FALSE) \o Cat(PiecesOf(x), 1)
DescOf(x) ==
  [le |-> x.le, w |-> Ext(x.d[1], 8), h |-> Ext(x.d[2], 8), spp |-> W8(x.s), bits |-> [i \in 1..NList(x) |-> x.b],
   fmt |-> [i \in 1..NList(x) |-> x.f], planar |-> x.planar, pred |-> x.pred, comp |-> 1, ph |-> 1,
   jt |-> Unset, lp |-> Unset]
Sized ==
  q.kind = "tile" =>
  LET T == DescOf(q)
      r == TLCEval(Decode(T, PiecesOf(q)))
      ty == TypeOf(T)
  IN r.k \in {"ok", "open"} =>
       /\ Tame(T) /\ Len(r.e) = ToNat(Count(T).w)
       /\ \A i \in 1..Len(r.e) : Len(r.e[i]) = ElemSize(ty)
Out == q.kind # "tile" \/ PrintT(ToJson([b |-> BytesOf(q)]))
=============================================================================
