------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width machine words as byte sequences, most significant byte     *)
(* first.  TLC integers are 32 bit, the values of a TIFF file are up to   *)
(* 64 bit, so all arithmetic on file offsets, counts and values is done   *)
(* on these words.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Zeros(n) == [i \in 1..n |-> 0]
Sub(s, a, n) == SubSeq(s, a, a + n - 1)
IsZero(w) == \A i \in 1..Len(w) : w[i] = 0

(* The word whose file representation is `bytes` (le: little-endian).      *)
Msb(bytes, le) == IF le THEN Rev(bytes) ELSE bytes

(* Widen / truncate to n bytes.                                            *)
Ext(w, n) == IF Len(w) >= n THEN SubSeq(w, Len(w) - n + 1, Len(w))
             ELSE Zeros(n - Len(w)) \o w
Fits(w, n) == Len(w) <= n \/ IsZero(SubSeq(w, 1, Len(w) - n))

(* Two's complement.                                                       *)
Neg(w) == w[1] >= 128
SExt(w, n) == IF Len(w) >= n THEN SubSeq(w, Len(w) - n + 1, Len(w))
              ELSE [i \in 1..(n - Len(w)) |-> IF Neg(w) THEN 255 ELSE 0] \o w
SFits(w, n) == SExt(SExt(w, n), Len(w)) = w \/ Len(w) <= n

(* Words and natural numbers (below 2^31).                                 *)
IsNat(w) == LET v == Ext(w, 4) IN Fits(w, 4) /\ v[1] < 128
ToNat(w) == LET v == Ext(w, 4)
            IN ((v[1] * 256 + v[2]) * 256 + v[3]) * 256 + v[4]
OfNat(n, k) ==
  LET v == << (n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256 >>
  IN Ext(v, k)

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(a) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i + 1)
Lt(a, b) == LtFrom(a, b, 1)          \* equal widths
Le(a, b) == a = b \/ Lt(a, b)

(* Addition and subtraction; c is the carry / borrow out of byte 1.        *)
RECURSIVE AddC(_, _, _)
AddC(a, b, i) ==       \* sum of bytes i..Len: [w, c]
  IF i > Len(a) THEN [w |-> <<>>, c |-> 0]
  ELSE LET t == AddC(a, b, i + 1)
           s == a[i] + b[i] + t.c
       IN [w |-> <<s % 256>> \o t.w, c |-> s \div 256]
Add(a, b) == AddC(a, b, 1).w
AddOv(a, b) == AddC(a, b, 1).c = 1
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Minus(a, b) == Add(Add(a, Not(b)), Ext(<<1>>, Len(a)))   \* a - b, wrapping
AddNat(a, n) == Add(a, OfNat(n, Len(a)))

(* Multiplication by a small number; c is the overflow.                    *)
RECURSIVE MulC(_, _, _)
MulC(a, k, i) ==
  IF i > Len(a) THEN [w |-> <<>>, c |-> 0]
  ELSE LET t == MulC(a, k, i + 1)
           s == a[i] * k + t.c
       IN [w |-> <<s % 256>> \o t.w, c |-> s \div 256]
Mul(a, k) == MulC(a, k, 1)

(* General multiplication of equal widths: [w, ov].                        *)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==       \* a * (bytes i.. of b)
  IF i > Len(b) THEN [w |-> Zeros(Len(a)), ov |-> FALSE]
  ELSE LET t == MulFrom(a, b, i + 1)
           m == Mul(a, b[i])
           k == Len(b) - i                      \* shift in bytes
           sh == SubSeq(m.w, k + 1, Len(a)) \o Zeros(k)
           s == AddC(sh, t.w, 1)
       IN [w |-> s.w,
           ov |-> t.ov \/ s.c # 0 \/ m.c # 0 \/ ~IsZero(SubSeq(m.w, 1, k))]
Small(w) == IsZero(SubSeq(w, 1, Len(w) - 2)) /\ w[Len(w) - 1] < 128
MulW(a, b) == IF Len(a) >= 4 /\ Small(a) /\ Small(b)
              THEN [w |-> OfNat(ToNat(a) * ToNat(b), Len(a)), ov |-> FALSE]
              ELSE MulFrom(a, b, 1)

(* Division of numbers below 2^33, one bit after the other; numbers are    *)
(* pairs <<high, low>> of 16 low bits and the rest; b # 0.                 *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitOf(a, i) == (a[((i - 1) \div 8) + 1] \div Pow2[8 - ((i - 1) % 8)]) % 2     \* i = 1: top bit
Twice(p, bit) == LET l == 2 * p[2] + bit IN << 2 * p[1] + (l \div 65536), l % 65536 >>
Less(p, r) == p[1] < r[1] \/ (p[1] = r[1] /\ p[2] < r[2])
Diff(p, r) == IF p[2] >= r[2] THEN << p[1] - r[1], p[2] - r[2] >>
              ELSE << p[1] - r[1] - 1, p[2] + 65536 - r[2] >>
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, b, i, q, r) ==
  IF i > 8 * Len(a) THEN q
  ELSE LET r2 == Twice(r, BitOf(a, i))
       IN IF Less(r2, b) THEN DivFrom(a, b, i + 1, Twice(q, 0), r2)
          ELSE DivFrom(a, b, i + 1, Twice(q, 1), Diff(r2, b))
Pair(w) == LET v == Ext(w, 6) IN << ToNat(SubSeq(v, 1, 4)), v[5] * 256 + v[6] >>
UnPair(p, n) == Ext(OfNat(p[1], 4) \o OfNat(p[2], 2), n)
(* The smallest n with n * b >= a, for words below 2^32 (8 bytes wide).     *)
CeilDiv(a, b) ==
  IF IsNat(a) /\ IsNat(b) /\ ToNat(a) < 1000000000 /\ ToNat(b) < 1000000000
  THEN OfNat((ToNat(a) + ToNat(b) - 1) \div ToNat(b), Len(a))
  ELSE UnPair(DivFrom(SubSeq(Add(a, Minus(b, OfNat(1, Len(b)))), 4, 8), Pair(b), 1, <<0, 0>>, <<0, 0>>), Len(a))

(* Cut s into pieces of n.                                                 *)
Pieces(s, n) == [i \in 1..(Len(s) \div n) |-> Sub(s, (i - 1) * n + 1, n)]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
=============================================================================
