----------------------------- MODULE TiffWrite -----------------------------
(***************************************************************************)
(* A conforming writer: lays out a small file as bytes.  Entries to write  *)
(* are [tag, v] with v = [ty, vs] (see TiffFile).                          *)
(***************************************************************************)
EXTENDS TiffFile

DirSize(n, big) == CountSize(big) + n * EntrySize(big) + FieldSize(big)
OutSize(v, big) == IF Inline(v, big) THEN 0 ELSE Len(v.vs) * TypeSize(v.ty)

RECURSIVE OutBefore(_, _, _)
OutBefore(es, j, big) == IF j = 1 THEN 0 ELSE OutBefore(es, j - 1, big) + OutSize(es[j - 1].v, big)
BlockSize(es, big) == DirSize(Len(es), big) + OutBefore(es, Len(es) + 1, big)

(* The directory at offset `at`, its out-of-line values behind it.         *)
DirBytes(es, le, big, at, next) ==
  LET base == at + DirSize(Len(es), big)
  IN Msb(OfNat(Len(es), CountSize(big)), le)
     \o Flat([j \in 1..Len(es) |->
               EntryBytes(es[j].tag, es[j].v, le, big, W8(base + OutBefore(es, j, big)))])
     \o Msb(Ext(next, FieldSize(big)), le)
     \o Flat([j \in 1..Len(es) |->
               IF Inline(es[j].v, big) THEN <<>> ELSE Stored(es[j].v, le)])

HeaderSize(big) == IF big THEN 16 ELSE 8
FileOf(bytes) == [len |-> W8(Len(bytes)),
                  x |-> IF bytes = <<>> THEN <<>> ELSE <<[at |-> W8(0), b |-> bytes]>>]

(* A file with the directories ds one after the other, chained in order.   *)
RECURSIVE DirPos(_, _, _)
DirPos(ds, i, big) == IF i = 1 THEN HeaderSize(big)
                      ELSE DirPos(ds, i - 1, big) + BlockSize(ds[i - 1], big)
FileBytes(ds, le, big) ==
  HeaderBytes(le, big, W8(HeaderSize(big)))
  \o Flat([i \in 1..Len(ds) |->
            DirBytes(ds[i], le, big, DirPos(ds, i, big),
                     W8(IF i < Len(ds) THEN DirPos(ds, i + 1, big) ELSE 0))])

E(tag, ty, vs) == [tag |-> tag, v |-> [ty |-> ty, vs |-> vs]]
Short1(tag, n) == E(tag, 3, << OfNat(n, 2) >>)
(* The tags every directory needs.                                         *)
Needed == << Short1(256, 5), Short1(257, 4), Short1(258, 8), Short1(262, 1), Short1(277, 1) >>
=============================================================================
