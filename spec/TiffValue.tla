----------------------------- MODULE TiffValue -----------------------------
(***************************************************************************)
(* Tag values: the value space of directory entries, how the bytes of an  *)
(* entry denote a value, and the conversions offered to users.            *)
(*                                                                         *)
(* A value is [t, v, l]: t is its kind, v its bytes (most significant     *)
(* first; numerator then denominator; the characters of a text), l the    *)
(* elements if t = "List".                                                *)
(***************************************************************************)
EXTENDS Words, TLC

Val(t, v)  == [t |-> t, v |-> v, l |-> <<>>]
ListOf(vs) == [t |-> "List", v |-> <<>>, l |-> vs]

TypeCodes == 1..13 \cup 16..18
TypeSize(ty) == CASE ty \in {1, 2, 6, 7} -> 1
                  [] ty \in {3, 8} -> 2
                  [] ty \in {4, 9, 11, 13} -> 4
                  [] ty \in {5, 10, 12, 16, 17, 18} -> 8
KindOf(ty) == CASE ty = 1 -> "Byte" [] ty = 2 -> "Ascii" [] ty = 3 -> "Short"
                [] ty = 4 -> "Unsigned" [] ty = 5 -> "Rational"
                [] ty = 6 -> "SignedByte" [] ty = 7 -> "Byte"
                [] ty = 8 -> "SignedShort" [] ty = 9 -> "Signed"
                [] ty = 10 -> "SRational" [] ty = 11 -> "Float"
                [] ty = 12 -> "Double" [] ty = 13 -> "Ifd"
                [] ty = 16 -> "UnsignedBig" [] ty = 17 -> "SignedBig"
                [] ty = 18 -> "IfdBig"

(* Text: up to the first NUL.                                              *)
UptoNul(b) == IF \A i \in 1..Len(b) : b[i] # 0 THEN b
              ELSE SubSeq(b, 1, (CHOOSE i \in 1..Len(b) : b[i] = 0 /\ \A j \in 1..(i - 1) : b[j] # 0) - 1)

(* Well-formed UTF-8 (enough of it: other byte strings have no specified   *)
(* decoding).                                                              *)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE IF b[i] < 128 THEN Utf8From(b, i + 1)
  ELSE IF b[i] \in 194..223 THEN Cont(b, i + 1) /\ Utf8From(b, i + 2)
  ELSE IF b[i] \in 225..236 THEN Cont(b, i + 1) /\ Cont(b, i + 2) /\ Utf8From(b, i + 3)
  ELSE FALSE
Utf8(b) == (\A i \in 1..Len(b) : b[i] < 128) \/ Utf8From(b, 1)

(* One element of type ty from its stored bytes.                           *)
Elem(ty, bytes, le) ==
  IF ty \in {5, 10}
  THEN Val(KindOf(ty), Msb(Sub(bytes, 1, 4), le) \o Msb(Sub(bytes, 5, 4), le))
  ELSE Val(KindOf(ty), Msb(bytes, le))

(* The value of an entry with `count` values stored in `bytes`.            *)
Denote(ty, count, bytes, le) ==
  IF count = 0 THEN ListOf(<<>>)
  ELSE IF ty = 2 THEN Val("Ascii", UptoNul(bytes))
  ELSE IF count = 1 THEN Elem(ty, bytes, le)
  ELSE LET ps == TLCEval(Pieces(bytes, TypeSize(ty)))
       IN ListOf(TLCEval([i \in 1..Len(ps) |-> Elem(ty, ps[i], le)]))

(* The inverse, used to write files: the stored bytes of a value.          *)
StoreElem(ty, v, le) ==
  IF ty \in {5, 10} THEN Msb(Sub(v, 1, 4), le) \o Msb(Sub(v, 5, 4), le) ELSE Msb(v, le)

(***************************************************************************)
(* Conversions.  A conversion result is [k, w] with k = "ok" and w the     *)
(* sequence of words (one for scalars), "err", or "free" where this       *)
(* specification leaves success or failure open: then the implementation  *)
(* may fail or return w.                                                   *)
(***************************************************************************)
Err      == [k |-> "err", w |-> <<>>]
Ok(ws)   == [k |-> "ok", w |-> ws]
Free(ws) == [k |-> "free", w |-> ws]

UKinds == {"Byte", "Short", "Unsigned", "UnsignedBig"}
SKinds == {"SignedByte", "SignedShort", "Signed", "SignedBig"}
IfdKinds == {"Ifd", "IfdBig"}

(* To an unsigned integer of n bytes.                                      *)
ToU(val, n) ==
  IF val.t \in UKinds \cup IfdKinds
  THEN IF ~Fits(val.v, n) THEN Err
       ELSE IF n = 1 /\ val.t # "Byte" THEN Free(<<Ext(val.v, n)>>)
       ELSE IF n = 2 /\ val.t \in IfdKinds THEN Free(<<Ext(val.v, n)>>)
       ELSE Ok(<<Ext(val.v, n)>>)
  ELSE Err
(* To a signed integer of n bytes.                                         *)
ToS(val, n) ==
  IF val.t \in SKinds
  THEN IF ~SFits(val.v, n) THEN Err
       ELSE IF n = 1 /\ val.t # "SignedByte" THEN Free(<<SExt(val.v, n)>>)
       ELSE Ok(<<SExt(val.v, n)>>)
  ELSE Err
ToF(val, n) == IF val.t = (IF n = 4 THEN "Float" ELSE "Double") THEN Ok(<<val.v>>) ELSE Err
ToText(val) == IF val.t = "Ascii" THEN Ok(<<val.v>>) ELSE Err

Scalar(val, target) ==
  CASE target = "u8" -> ToU(val, 1) [] target = "u16" -> ToU(val, 2)
    [] target = "u32" -> ToU(val, 4) [] target = "u64" -> ToU(val, 8)
    [] target = "i8" -> ToS(val, 1) [] target = "i16" -> ToS(val, 2)
    [] target = "i32" -> ToS(val, 4) [] target = "i64" -> ToS(val, 8)
    [] target = "f32" -> ToF(val, 4) [] target = "f64" -> ToF(val, 8)
    [] target = "string" -> ToText(val)

RatKinds  == {"Rational", "RationalBig"}
SRatKinds == {"SRational", "SRationalBig"}
(* Numerator and denominator as two words.                                 *)
Halves(val) == Pieces(val.v, Len(val.v) \div 2)
PairU(val, n) == LET h == Halves(val)
                 IN IF Fits(h[1], n) /\ Fits(h[2], n) THEN Ok(<<Ext(h[1], n), Ext(h[2], n)>>)
                    ELSE Err
PairS(val, n) == LET h == Halves(val)
                 IN IF SFits(h[1], n) /\ SFits(h[2], n)
                    THEN Ok(<<SExt(h[1], n), SExt(h[2], n)>>) ELSE Err
Width(target) == CASE target \in {"u8", "i8"} -> 1 [] target \in {"u16", "i16"} -> 2
                   [] target \in {"u32", "i32", "f32"} -> 4
                   [] target \in {"u64", "i64", "f64"} -> 8
                   [] OTHER -> 0
Unsig(target) == target \in {"u8", "u16", "u32", "u64"}
Sig(target)   == target \in {"i8", "i16", "i32", "i64"}
Loosen(r) == IF r.k = "ok" THEN Free(r.w) ELSE r

(* The combination of element results: fails if one fails.                 *)
RECURSIVE Gather(_, _)
Gather(rs, i) ==
  IF i > Len(rs) THEN Ok(<<>>)
  ELSE LET t == Gather(rs, i + 1)
       IN IF rs[i].k = "err" \/ t.k = "err" THEN Err
          ELSE [k |-> IF rs[i].k = "free" \/ t.k = "free" THEN "free" ELSE "ok",
                w |-> rs[i].w \o t.w]

(* Conversion of one element of a list.                                    *)
ListElem(val, target) ==
  IF val.t \in SRatKinds /\ Sig(target)
  THEN IF target \in {"i32", "i64"} THEN PairS(val, Width(target)) ELSE Err
  ELSE IF val.t \in RatKinds /\ target \in {"u32", "u64"}
  THEN Loosen(PairU(val, Width(target)))
  ELSE Scalar(val, target)

(* The characters of a well-formed text.                                  *)
RECURSIVE CodesFrom(_, _)
CodesFrom(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE IF b[i] < 128 THEN <<b[i]>> \o CodesFrom(b, i + 1)
  ELSE IF b[i] < 224 THEN << (b[i] % 32) * 64 + (b[i + 1] % 64) >> \o CodesFrom(b, i + 2)
  ELSE << ((b[i] % 16) * 64 + (b[i + 1] % 64)) * 64 + (b[i + 2] % 64) >> \o CodesFrom(b, i + 3)
CharCodes(b) == IF \A i \in 1..Len(b) : b[i] < 128 THEN b ELSE CodesFrom(b, 1)

Gathered(rs) ==          \* without recursion where every element is one word
  IF \A i \in 1..Len(rs) : rs[i].k # "err" /\ Len(rs[i].w) = 1
  THEN [k |-> IF \E i \in 1..Len(rs) : rs[i].k = "free" THEN "free" ELSE "ok",
        w |-> TLCEval([i \in 1..Len(rs) |-> rs[i].w[1]])]
  ELSE IF \E i \in 1..Len(rs) : rs[i].k = "err" THEN Err
  ELSE Gather(rs, 1)

ToVec(val, target) ==
  IF val.t = "List"
  THEN Gathered(TLCEval([i \in 1..Len(val.l) |-> ListElem(val.l[i], target)]))
  ELSE IF val.t = "Ascii" /\ target \in {"u32", "u64"}
  THEN IF Utf8(val.v)
       THEN LET cs == CharCodes(val.v) IN Ok([i \in 1..Len(cs) |-> OfNat(cs[i], Width(target))])
       ELSE [k |-> "any", w |-> <<>>]
  ELSE IF val.t \in RatKinds /\ target \in {"u32", "u64"} THEN PairU(val, Width(target))
  ELSE IF val.t \in SRatKinds /\ target \in {"i32", "i64"} THEN PairS(val, Width(target))
  ELSE Scalar(val, target)

(* Does the observed outcome [r, w] (r: "ok" / "err") agree?               *)
Agrees(res, obs) ==
  \/ res.k = "any" /\ obs.r \in {"ok", "err"}
  \/ res.k = "ok" /\ obs.r = "ok" /\ obs.w = res.w
  \/ res.k = "err" /\ obs.r = "err"
  \/ res.k = "free" /\ (obs.r = "err" \/ (obs.r = "ok" /\ obs.w = res.w))
=============================================================================
