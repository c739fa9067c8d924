------------------------------- MODULE MCDir -------------------------------
(***************************************************************************)
(* Every field of a directory with a value of every field type, several    *)
(* values and numbers of values; every set of missing required tags;       *)
(* entries in several orders.  A tag changes its own field and nothing     *)
(* else, and the field then holds the number or text that was written.     *)
(***************************************************************************)
EXTENDS TiffWrite, TLC, Json
CONSTANTS Deep

Nums == {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<8>>, <<255>>, <<1, 0>>, <<128, 1>>, <<255, 255>>,
         <<1, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>,
         <<255, 255, 255, 255, 255, 255, 255, 255>>}
IntTypes == {1, 3, 4, 6, 7, 8, 9, 13, 16, 17, 18}
Widened(n, w) == Ext(n, w)
Ratios == {<<0, 0, 0, 72, 0, 0, 0, 1>>, <<0, 0, 1, 44, 0, 0, 0, 4>>, <<0, 0, 0, 0, 0, 0, 0, 2>>,
           <<0, 0, 0, 1, 0, 0, 4, 0>>}
Floats == {<<63, 240, 0, 0, 0, 0, 0, 0>>, <<192, 9, 33, 251, 84, 68, 45, 24>>, Zeros(8)}
Texts == {<<97, 98, 0>>, <<0>>, <<49>>, <<65, 66, 67, 68, 69, 70, 71, 72, 73, 0>>, <<50, 53, 53, 0>>,
          <<97, 0, 98, 0>>}
Firsts(ty) == IF ty \in IntTypes THEN {Ext(n, TypeSize(ty)) : n \in {m \in Nums : Fits(m, TypeSize(ty))}}
              ELSE IF ty \in {5, 10} THEN Ratios
              ELSE IF ty = 12 THEN Floats
              ELSE {SubSeq(f, 1, 4) : f \in Floats}
One(ty) == IF ty \in IntTypes THEN OfNat(1, TypeSize(ty)) ELSE CHOOSE f \in Firsts(ty) : TRUE
Values(ty) ==
  IF ty = 2 THEN {[ty |-> 2, vs |-> [j \in 1..Len(t) |-> <<t[j]>>]] : t \in Texts}
                 \cup {[ty |-> 2, vs |-> <<>>]}
  ELSE {[ty |-> ty, vs |-> <<f>>] : f \in Firsts(ty)}
       \cup {[ty |-> ty, vs |-> <<One(ty), f>>] : f \in Firsts(ty)}
       \cup {[ty |-> ty, vs |-> <<>>], [ty |-> ty, vs |-> <<One(ty), One(ty), One(ty)>>]}
       \cup (IF Deep THEN {[ty |-> ty, vs |-> <<f, One(ty), f>>] : f \in Firsts(ty)} ELSE {})

(* The directory to write: the needed tags, `tag` replaced or inserted.    *)
Insert(tag, v) ==
  IF \E i \in 1..Len(Needed) : Needed[i].tag = tag
  THEN [i \in 1..Len(Needed) |-> IF Needed[i].tag = tag THEN [tag |-> tag, v |-> v] ELSE Needed[i]]
  ELSE LET lo == {i \in 1..Len(Needed) : Needed[i].tag < tag}
           n == Cardinality(lo)
       IN SubSeq(Needed, 1, n) \o <<[tag |-> tag, v |-> v]>> \o SubSeq(Needed, n + 1, Len(Needed))
Without(s) == SelectSeq(Needed, LAMBDA e : e.tag \notin s)
Several == Needed \o << E(65000, 4, << <<1, 2, 3, 4>> >>), E(270, 2, <<<<104>>, <<105>>, <<0>>>>),
                        E(339, 3, << <<0, 2>> >>), E(700, 1, <<<<1>>, <<2>>, <<3>>, <<4>>, <<5>>>>) >>
Rotate(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)

VARIABLE q
Es(x) == CASE x.kind = "field" -> Insert(x.tag, x.v)
           [] x.kind = "missing" -> Without(x.v)
           [] x.kind = "order" -> Rotate(IF x.v = 1 THEN Rev(Several) ELSE Several, x.tag)
Bytes(x) == FileBytes(<<Es(x)>>, x.le, x.big)
Case(kind, tag, v, le, big) == [kind |-> kind, tag |-> tag, v |-> v, le |-> le, big |-> big]
Tags == FieldTags \cup {65000, 330}
Init == \/ \E t \in Tags, le \in BOOLEAN : (Deep \/ le) /\ q = Case("start", t, 0, le, TRUE)
        \/ \E le, big \in BOOLEAN : q = Case("start0", 0, 0, le, big)
Next ==
  /\ \/ /\ q.kind = "start"
        /\ \E ty \in TypeCodes : \E v \in Values(ty) :
             LET b == (Len(v.vs) + ty + (IF v.vs = <<>> THEN 0 ELSE v.vs[1][1])) % 2 = 0
                 l == (Len(v.vs) + q.tag + (IF v.vs = <<>> THEN 0 ELSE v.vs[1][Len(v.vs[1])])) % 2 = 0
             IN \E big \in (IF Deep THEN BOOLEAN ELSE {b}) :
                q' = Case("field", q.tag, v, IF Deep THEN q.le ELSE l, big)
     \/ /\ q.kind = "start0"
        /\ \/ \E s \in SUBSET Required : q' = Case("missing", 0, s, q.le, q.big)
           \/ \E n \in 0..(Len(Several) - 1), v \in 0..1 : q' = Case("order", n, v, q.le, q.big)
  /\ PrintT(ToJson([b |-> Bytes(q')]))

Base == Chain(FileOf(FileBytes(<<Needed>>, TRUE, FALSE))).ds[1]
AllSet == Chain(FileOf(FileBytes(<<Several>>, TRUE, FALSE))).ds[1]

(* The words of the field are numerically those that were written.         *)
SameNumbers(f, v) ==
  IF v.ty = 2 THEN TRUE
  ELSE f.s = "set" /\ Len(f.v) = Len(v.vs) * (IF v.ty \in {5, 10} THEN 2 ELSE 1)
       /\ (v.ty \notin {5, 10} => \A j \in 1..Len(f.v) : Ext(f.v[j], 8) = Ext(v.vs[j], 8))
Unsigned == {1, 3, 4, 7, 16}
Numeric(row) == row[3] \in {"u8", "u16", "u32", "u64"}

Decided ==
  LET ch == Chain(FileOf(Bytes(q)))
      d == ch.ds[1]
      row == FieldTable[RowOf[q.tag]]
      w == Width(row[3])
  IN CASE q.kind \in {"start", "start0"} -> TRUE
       [] q.kind = "missing" -> (ch.k = "ok") <=> (q.v = {})
       [] q.kind = "order" -> ch.k = "ok" /\ d.f = AllSet.f /\ d.o = AllSet.o /\ d.g = AllSet.g
       [] q.kind = "field" /\ q.tag \notin FieldTags ->
            ch.k = "ok" /\ d.f = Base.f /\ d.o = {[tag |-> q.tag, val |-> Meaning(q.v)]}
       [] q.kind = "field" /\ q.tag \in FieldTags ->
            /\ ch.k = "ok" =>
                 /\ \A nm \in FieldNames \ {row[2], "sample_format"} : d.f[nm] = Base.f[nm]
                 /\ row[2] \notin {"sample_format", "samples_per_pixel"} =>
                      d.f["sample_format"] = Base.f["sample_format"]
                 /\ d.o = {} /\ d.g = Base.g
                 /\ Numeric(row) => SameNumbers(d.f[row[2]], q.v) \/ d.f[row[2]].s = "any"
                 /\ row[3] = "string" => q.v.ty = 2
            \* an unsigned number that fits its field is never refused
            /\ (Numeric(row) /\ row[3] # "u8" /\ q.v.ty \in Unsigned /\ Len(q.v.vs) = 1
                /\ Fits(q.v.vs[1], w)
                /\ (w = 2 => ToNat(Ext(q.v.vs[1], 4)) \in Codes(row[2])))
               => ch.k = "ok"
            \* signed numbers, floats and text never become numbers
            /\ (Numeric(row) /\ q.v.ty \in {6, 8, 9, 11, 12, 17} /\ Len(q.v.vs) > 0) => ch.k = "err"
            /\ (row[3] = "string" /\ q.v.ty # 2) => ch.k = "err"
            /\ (row[3] = "f64" /\ q.v.ty # 12 /\ Len(q.v.vs) > 0) => ch.k = "err"
            \* a number too large for its field is refused
            /\ (Numeric(row) /\ q.v.ty \in Unsigned /\ (\E j \in 1..Len(q.v.vs) : ~Fits(q.v.vs[j], w)))
               => ch.k = "err"
=============================================================================
