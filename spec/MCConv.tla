------------------------------- MODULE MCConv -------------------------------
(***************************************************************************)
(* Conversions of tag values: every kind at every boundary to every        *)
(* target, scalars, lists, nested lists, rationals and texts.              *)
(***************************************************************************)
EXTENDS TiffValue, Json
CONSTANTS Deep

ScalarTargets == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "string"}
VecTargets == {"u8", "u16", "u32", "u64", "i32", "i64", "f32", "f64"}

(* Eight byte patterns around every boundary of the integer types.         *)
F(n, top) == Zeros(8 - n) \o [i \in 1..n |-> IF i = 1 THEN top ELSE 255]
P(n, top) == Zeros(8 - n) \o [i \in 1..n |-> IF i = 1 THEN top ELSE 0]
Edges ==
  LET sizes == {1, 2, 4, 8}
      pos == {Zeros(8), P(1, 1), P(1, 2), F(1, 126), P(2, 1), P(3, 1), P(5, 1), P(2, 127), P(4, 127),
              Zeros(7) \o <<42>>, Zeros(4) \o <<1, 2, 3, 4>>, <<1, 2, 3, 4, 5, 6, 7, 8>>}
             \cup {F(n, 127) : n \in sizes} \cup {P(n, 128) : n \in sizes}
             \cup {F(n, 128) : n \in sizes} \cup {F(n, 255) : n \in sizes}
             \cup {F(n, 254) : n \in sizes}
  IN pos \cup {Not(w) : w \in pos}
Size(t) == CASE t \in {"Byte", "SignedByte"} -> 1 [] t \in {"Short", "SignedShort"} -> 2
             [] t \in {"Unsigned", "Signed", "Float", "Ifd"} -> 4
             [] t \in {"UnsignedBig", "SignedBig", "Double", "IfdBig", "Rational", "SRational"} -> 8
             [] t \in {"RationalBig", "SRationalBig"} -> 16
Ints == UKinds \cup SKinds \cup IfdKinds
IntVals(t) == {Val(t, Ext(w, Size(t))) : w \in Edges}
NotNan(w) == ~(w[1] % 128 = 127 /\ w[2] >= 128)
FloatVals(t) == {Val(t, w) : w \in {x \in {Ext(e, Size(t)) : e \in Edges} : NotNan(x)}}
                \cup {Val(t, Ext(<<64, 73, 15, 219>>, 4) \o Zeros(Size(t) - 4))}
Few == {Zeros(8), P(1, 200), F(2, 255), P(3, 1), F(4, 127), P(4, 128), F(4, 255), P(5, 1), F(8, 127),
        Not(P(1, 5)), Not(F(4, 127)), Not(P(4, 128)), F(8, 128)}
RatVals(t) == {Val(t, Ext(a, Size(t) \div 2) \o Ext(b, Size(t) \div 2)) : a \in Few, b \in Few}
TextVals == {Val("Ascii", s) : s \in {<<>>, <<65>>, <<48, 49, 50>>, <<127, 1>>, <<53, 0, 54>>,
                                      <<195, 169, 66>>, <<226, 130, 172>>, <<65, 194, 128>>}}
Singles(t) == IF t \in Ints THEN IntVals(t)
              ELSE IF t \in {"Float", "Double"} THEN FloatVals(t)
              ELSE IF t = "Ascii" THEN TextVals ELSE RatVals(t)
Kinds == Ints \cup {"Float", "Double", "Ascii"} \cup RatKinds \cup SRatKinds

Pick(t) == CASE t \in Ints -> {Val(t, Ext(w, Size(t))) : w \in
                               IF Deep THEN Few ELSE {P(1, 7), F(2, 255), F(4, 255), P(5, 1), Not(P(1, 5))}}
             [] t = "Float" -> {Val(t, <<63, 192, 0, 0>>)}
             [] t = "Double" -> {Val(t, <<191, 240, 0, 0, 0, 0, 0, 3>>)}
             [] t = "Ascii" -> {Val(t, <<52, 50>>)}
             [] OTHER -> {Val(t, Ext(P(1, 3), Size(t) \div 2) \o Ext(P(1, 5), Size(t) \div 2)),
                          Val(t, Ext(P(5, 9), Size(t) \div 2) \o Ext(F(4, 129), Size(t) \div 2))}
Lists1(t) == {ListOf(<<v>>) : v \in Singles(t)}
Lists2(t) == UNION {{ListOf(<<a, b>>), ListOf(<<b, a, b>>)} : a \in Pick(t), b \in UNION {Pick(u) : u \in Kinds}}
Other == {ListOf(<<>>), ListOf(<<ListOf(<<>>)>>), ListOf(<<ListOf(<<Val("Byte", <<1>>)>>)>>),
          ListOf(<<Val("Short", <<0, 1>>), ListOf(<<Val("Short", <<0, 2>>)>>)>>)}

VARIABLE q         \* [kind, v]
Init == \E t \in Kinds \cup {"Other"} : q = [k |-> "start", v |-> Val(t, <<>>)]
Next == /\ q.k = "start"
        /\ \E v \in IF q.v.t = "Other" THEN Other
                    ELSE Singles(q.v.t) \cup Lists1(q.v.t) \cup Lists2(q.v.t) :
             /\ q' = [k |-> "value", v |-> v]
             /\ PrintT(ToJson([v |-> v]))

(* The number a value denotes: nine bytes in two's complement.             *)
Num(v) == IF v.t \in UKinds \cup IfdKinds THEN Ext(v.v, 9) ELSE SExt(v.v, 9)
NumOf(target, w) == IF Unsig(target) THEN Ext(w, 9) ELSE SExt(w, 9)
InRange(target, n) == NumOf(target, Ext(n, Width(target))) = n
(* 1. a converted integer is the same number; 2. it fails only if it does  *)
(* not fit or the signedness differs; 3. nothing else becomes an integer.   *)
ExactScalar(v) ==
  \A t \in ScalarTargets :
    LET r == Scalar(v, t)
    IN /\ r.k \in {"ok", "err", "free"}
       /\ (r.k # "err" /\ (Unsig(t) \/ Sig(t))) =>
            /\ v.t \in Ints /\ Len(r.w) = 1 /\ Len(r.w[1]) = Width(t)
            /\ NumOf(t, r.w[1]) = Num(v)
       /\ ((v.t \in UKinds /\ Unsig(t)) \/ (v.t \in SKinds /\ Sig(t))) =>
            (r.k = "err" <=> ~InRange(t, Num(v)))
       /\ (v.t \in UKinds \cup IfdKinds /\ Sig(t)) => r.k = "err"
       /\ (v.t \in SKinds /\ Unsig(t)) => r.k = "err"
       /\ (v.t \in UKinds /\ Unsig(t) /\ Width(t) >= Size(v.t)) => r.k = "ok"
       /\ (v.t \in SKinds /\ Sig(t) /\ Width(t) >= Size(v.t)) => r.k = "ok"
       /\ r.k # "err" /\ t = "f32" => v.t = "Float" /\ r.w = <<v.v>>
       /\ r.k # "err" /\ t = "f64" => v.t = "Double" /\ r.w = <<v.v>>
       /\ r.k # "err" /\ t = "string" => v.t = "Ascii"
Plain(v) == v.t \notin RatKinds \cup SRatKinds
ExactVec(v) ==
  \A t \in VecTargets :
    LET r == ToVec(v, t)
    IN IF v.t = "List"
       THEN /\ (\A i \in 1..Len(v.l) : Plain(v.l[i])) =>
                 /\ r.k = "err" <=> \E i \in 1..Len(v.l) : Scalar(v.l[i], t).k = "err"
                 /\ r.k # "err" => /\ Len(r.w) = Len(v.l)
                                   /\ \A i \in 1..Len(v.l) : Scalar(v.l[i], t).w = <<r.w[i]>>
            /\ r.k # "err" => \A i \in 1..Len(v.l) : v.l[i].t # "List"
       ELSE IF v.t = "Ascii" THEN t \in {"u32", "u64"} <=> r.k = "ok"
       ELSE IF Plain(v) THEN r = Scalar(v, t)
       ELSE r.k = "ok" => Len(r.w) = 2 /\ Unsig(t) = (v.t \in RatKinds)
Exact == q.k = "value" => ExactScalar(q.v) /\ ExactVec(q.v)
=============================================================================
