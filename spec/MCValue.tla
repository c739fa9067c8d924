------------------------------ MODULE MCValue ------------------------------
(***************************************************************************)
(* Every field type, number of values, byte order and variant: an entry    *)
(* written to a file reads back as the value that was written, and an      *)
(* entry whose bytes are not all there (or of no known type) does not      *)
(* read back at all.  Prints every file as a case for the implementation.  *)
(***************************************************************************)
EXTENDS TiffWrite, TLC, Json
CONSTANTS Deep

Counts == IF Deep THEN 0..18 ELSE {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17}
(* Element bytes by pattern.                                               *)
Byte(p, j, k, n) ==     \* byte k of element j of n bytes
  CASE p = 1 -> ((16 * j + k) % 251) + 1
    [] p = 2 -> IF k = 1 THEN 128 + (j % 60) ELSE IF k = n THEN j % 256 ELSE 255 - k
    [] p = 3 -> IF k = n THEN j % 3 ELSE 0
    [] p = 4 -> IF k = 1 THEN 127 - ((k + j) % 60) ELSE 255
Elems(ty, c, p) == [j \in 1..c |-> [k \in 1..TypeSize(ty) |-> Byte(p, j, k, TypeSize(ty))]]
Text(c, p) ==
  [j \in 1..c |-> << CASE p = 1 -> IF j = c THEN 0 ELSE 64 + j
                       [] p = 2 -> 96 + j                            \* no NUL
                       [] p = 3 -> IF j = 3 \/ j = c THEN 0 ELSE 64 + j  \* NUL inside
                       [] p = 4 -> IF j >= c - 1 THEN 0 ELSE 48 + j >>]
Vals(ty, c, p) == [ty |-> ty, vs |-> IF ty = 2 THEN Text(c, p) ELSE Elems(ty, c, p)]

VARIABLE q        \* the file being built: [kind, ty, c, p, le, big, cut]
Es(v) == Needed \o << [tag |-> 65000, v |-> v] >>
Bytes(x) ==
  LET v == Vals(x.ty, x.c, x.p)
      b == FileBytes(<<Es(v)>>, x.le, x.big)
      fs == FieldSize(x.big)
      at == HeaderSize(x.big) + CountSize(x.big) + 5 * EntrySize(x.big)
  IN CASE x.kind = "whole" -> b
       [] x.kind = "cut" -> SubSeq(b, 1, Len(b) - x.cut)
       [] x.kind = "type" ->      \* an entry of unknown type
            [i \in 1..Len(b) |-> IF i = at + 3 THEN Msb(OfNat(x.cut, 2), x.le)[1]
                                 ELSE IF i = at + 4 THEN Msb(OfNat(x.cut, 2), x.le)[2] ELSE b[i]]
       [] x.kind = "far" ->       \* value stored outside the file
            LET w == Msb(IF x.cut = 0 THEN OfNat(Len(b), fs)
                         ELSE IF x.cut = 1 THEN [i \in 1..fs |-> 255]
                         ELSE IF x.cut = 2 THEN [i \in 1..fs |-> IF i = 1 THEN 128 ELSE 0]
                         ELSE OfNat(Len(b) - (x.c * TypeSize(x.ty)) + 1, fs), x.le)
            IN [i \in 1..Len(b) |-> IF i > at + 4 + fs /\ i <= at + 4 + fs + fs
                                    THEN w[i - (at + 4 + fs)] ELSE b[i]]

Unknown == {0, 14, 15, 19, 20, 128, 256, 512, 768, 1024, 65535}
Case(kind, ty, c, p, le, big, cut) ==
  [kind |-> kind, ty |-> ty, c |-> c, p |-> p, le |-> le, big |-> big, cut |-> cut]
Of(ty, le, big) ==
  {Case("whole", ty, c, p, le, big, 0) : c \in Counts, p \in 1..4}
  \cup {x \in {Case("cut", ty, c, 1, le, big, cut) : c \in {1, 2, 3, 9}, cut \in {1, 2, 3, 7, 8}} :
          x.cut <= OutSize(Vals(ty, x.c, 1), big)}
  \cup {x \in {Case("far", ty, c, 1, le, big, cut) : c \in {1, 2, 9}, cut \in 0..3} :
          OutSize(Vals(ty, x.c, 1), big) > 0}
  \cup (IF ty \in {1, 3, 4, 12}
        THEN {Case("type", ty, c, 1, le, big, cut) : c \in {0, 1, 2, 9}, cut \in Unknown}
        ELSE {})

Init == \E ty \in TypeCodes, le, big \in BOOLEAN : q = Case("start", ty, 0, 0, le, big, 0)
Next == /\ q.kind = "start"
        /\ q' \in Of(q.ty, q.le, q.big)
        /\ PrintT(ToJson([b |-> Bytes(q')]))

ReadsBack ==
  q.kind # "start" =>
  LET ch == Chain(FileOf(Bytes(q)))
  IN IF q.kind = "whole"
     THEN /\ ch.k = "ok" /\ Len(ch.ds) = 1
          /\ ch.ds[1].o = {[tag |-> 65000, val |-> Meaning(Vals(q.ty, q.c, q.p))]}
     ELSE ch.k = "err"
=============================================================================
