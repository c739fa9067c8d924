------------------------------ MODULE MCHeader ------------------------------
(* Enumerates file beginnings around the valid headers, checks that        *)
(* recognition accepts exactly what the header writer produces, and prints *)
(* every beginning as a case for the implementation.                       *)
EXTENDS TiffFile, TLC, Json
CONSTANTS Deep      \* enumerate the full product of deviations?

Orders == {<<73, 73>>, <<77, 77>>, <<73, 77>>, <<77, 73>>, <<0, 0>>, <<73, 0>>, <<105, 105>>}
Versions == {<<0, 0>>, <<0, 41>>, <<0, 42>>, <<0, 43>>, <<0, 44>>, <<42, 0>>, <<43, 0>>,
             <<1, 42>>, <<1, 43>>, <<255, 255>>, <<0, 85>>}
OffSizes == {<<0, 8>>, <<0, 4>>, <<0, 16>>, <<8, 0>>, <<0, 0>>, <<1, 8>>}
Constants == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<255, 255>>}
Firsts == {W8(0), W8(8), W8(16), W8(255), W8(65536), <<0, 0, 0, 0, 128, 0, 0, 1>>,
           <<0, 0, 0, 0, 255, 255, 255, 255>>, <<0, 0, 0, 1, 0, 0, 0, 8>>,
           <<127, 1, 2, 3, 4, 5, 6, 7>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}

Bytes(o, v, z, c, f, le) == o \o Msb(v, le) \o Msb(z, le) \o Msb(c, le) \o Msb(f, le)
Classic(o, v, f, le) == o \o Msb(v, le) \o Msb(Ext(f, 4), le)
Cut(b, n) == SubSeq(b, 1, IF n < Len(b) THEN n ELSE Len(b))

Fields == {Bytes(o, v, z, c, W8(16), le) :
             o \in Orders, v \in Versions, z \in OffSizes, c \in Constants, le \in BOOLEAN}
Offsets == {Bytes(o, v, <<0, 8>>, <<0, 0>>, f, le) :
             o \in Orders, v \in {<<0, 42>>, <<0, 43>>}, f \in Firsts, le \in BOOLEAN}
           \cup {Classic(o, <<0, 42>>, f, le) : o \in Orders, f \in Firsts, le \in BOOLEAN}
Short == {Cut(b, n) : b \in {Bytes(o, v, <<0, 8>>, <<0, 0>>, f, le) :
             o \in {<<73, 73>>, <<77, 77>>}, v \in {<<0, 42>>, <<0, 43>>, <<0, 44>>},
             f \in {W8(8), W8(16)}, le \in BOOLEAN}, n \in 0..16}
Long == {b \o <<7, 7, 7, 7, 7, 7, 7, 7>> : b \in Offsets}
Product == {Bytes(o, v, z, c, f, le) :
             o \in Orders, v \in Versions, z \in OffSizes, c \in Constants, f \in Firsts,
             le \in BOOLEAN}
Cases == Fields \cup Offsets \cup Short \cup Long \cup (IF Deep THEN Product ELSE {})

VARIABLE b
Init == b \in Cases /\ PrintT(ToJson([b |-> b]))
Next == UNCHANGED b

File == [len |-> W8(Len(b)), x |-> IF b = <<>> THEN <<>> ELSE <<[at |-> W8(0), b |-> b]>>]
StartsAs(le, big) ==
  LET n == IF big THEN 16 ELSE 8
      f == IF big THEN Sub(b, 9, 8) ELSE Sub(b, 5, 4)
  IN Len(b) >= n /\ SubSeq(b, 1, n) = HeaderBytes(le, big, Msb(f, le))
(* Exactly the headers a writer produces are recognised, and read back.    *)
Exact ==
  LET h == Header(File)
  IN /\ h.k = "ok" => StartsAs(h.le, h.big)
     /\ h.k = "ok" => LET w == HeaderBytes(h.le, h.big, h.first) IN SubSeq(b, 1, Len(w)) = w
     /\ h.k = "err" => \A le, big \in BOOLEAN : ~StartsAs(le, big)
=============================================================================
