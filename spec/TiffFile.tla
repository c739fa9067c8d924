------------------------------ MODULE TiffFile ------------------------------
(***************************************************************************)
(* A TIFF file as stored bytes: header, chain of image directories, and   *)
(* what reading them has to report.                                       *)
(*                                                                         *)
(* A file is [len, x]: its length (8-byte word) and its extents, a         *)
(* sequence of [at, b]; bytes below len outside all extents are 0.        *)
(***************************************************************************)
EXTENDS TiffDir

W8(n) == OfNat(n, 8)

RECURSIVE ByteIn(_, _, _)
ByteIn(x, at, i) ==        \* the byte at word `at`, looking at extents i..
  IF i > Len(x) THEN 0
  ELSE IF Le(x[i].at, at)
       THEN LET d == Minus(at, x[i].at)
            IN IF IsNat(d) /\ ToNat(d) < Len(x[i].b) THEN x[i].b[ToNat(d) + 1]
               ELSE ByteIn(x, at, i + 1)
       ELSE ByteIn(x, at, i + 1)

(* n bytes (n a natural number) from word `at`: [ok, b].                   *)
NoBytes == [ok |-> FALSE, b |-> <<>>]
RECURSIVE GetFrom(_, _, _, _)
GetFrom(F, at, n, i) ==
  IF i > Len(F.x) THEN [ok |-> TRUE, b |-> [j \in 1..n |-> ByteIn(F.x, AddNat(at, j - 1), 1)]]
  ELSE LET e == F.x[i]
       IN IF Le(e.at, at)
          THEN LET d == Minus(at, e.at)
               IN IF IsNat(d) /\ ToNat(d) <= Len(e.b) - n
                  THEN [ok |-> TRUE, b |-> Sub(e.b, ToNat(d) + 1, n)]
                  ELSE GetFrom(F, at, n, i + 1)
          ELSE GetFrom(F, at, n, i + 1)
Get(F, at, n) ==
  LET end == AddNat(at, n)
  IN IF n > 1000000 \/ AddOv(at, W8(n)) \/ Lt(F.len, end) THEN NoBytes
     ELSE GetFrom(F, at, n, 1)

(***************************************************************************)
(* Header                                                                  *)
(***************************************************************************)
HeaderErr == [k |-> "err", le |-> FALSE, big |-> FALSE, first |-> W8(0)]
Header(F) ==
  LET o == Get(F, W8(0), 2)
      le == o.b = <<73, 73>>
      v == Get(F, W8(2), 2)
      ver == Msb(v.b, le)
      off4 == Get(F, W8(4), 4)
      big == Get(F, W8(4), 12)
      osz == Msb(Sub(big.b, 1, 2), le)
      con == Msb(Sub(big.b, 3, 2), le)
  IN IF ~o.ok \/ o.b \notin {<<73, 73>>, <<77, 77>>} \/ ~v.ok THEN HeaderErr
     ELSE IF ver = <<0, 42>>
     THEN IF ~off4.ok THEN HeaderErr
          ELSE [k |-> "ok", le |-> le, big |-> FALSE, first |-> Ext(Msb(off4.b, le), 8)]
     ELSE IF ver = <<0, 43>>
     THEN IF ~big.ok \/ osz # <<0, 8>> \/ con # <<0, 0>> THEN HeaderErr
          ELSE [k |-> "ok", le |-> le, big |-> TRUE, first |-> Msb(Sub(big.b, 5, 8), le)]
     ELSE HeaderErr

(***************************************************************************)
(* One image directory                                                     *)
(***************************************************************************)
EntrySize(big) == IF big THEN 20 ELSE 12
CountSize(big) == IF big THEN 8 ELSE 2
FieldSize(big) == IF big THEN 8 ELSE 4

(* The value of the entry stored in the bytes e: [k, tag, val].            *)
EntryErr == [k |-> "err", tag |-> 0, val |-> ListOf(<<>>)]
Entry(F, le, big, e) ==
  LET fs == FieldSize(big)
      tag == ToNat(Msb(Sub(e, 1, 2), le))
      ty == ToNat(Msb(Sub(e, 3, 2), le))
      count == Ext(Msb(Sub(e, 5, fs), le), 8)
      field == Sub(e, 5 + fs, fs)
  IN IF ty \notin TypeCodes THEN EntryErr
     ELSE IF IsZero(count) THEN [k |-> "ok", tag |-> tag, val |-> ListOf(<<>>)]
     ELSE LET m == Mul(count, TypeSize(ty))
          IN IF m.c # 0 \/ ~IsNat(m.w) THEN EntryErr       \* longer than any file here
             ELSE LET size == ToNat(m.w)
                      n == ToNat(count)
                  IN IF size <= fs
                     THEN [k |-> "ok", tag |-> tag, val |-> Denote(ty, n, Sub(field, 1, size), le)]
                     ELSE LET g == Get(F, Ext(Msb(field, le), 8), size)
                          IN IF g.ok
                             THEN [k |-> "ok", tag |-> tag, val |-> Denote(ty, n, g.b, le)]
                             ELSE EntryErr

(* Directory at word `at`: [k, next] and the directory if k = "ok".        *)
(* next is the word that follows the entries, if it is in the file.       *)
BadDir == [k |-> "err", dir |-> DirErr, next |-> W8(0)]
DirAt(F, le, big, at) ==
  LET cs == CountSize(big)
      es == EntrySize(big)
      fs == FieldSize(big)
      cg == Get(F, at, cs)
      n == Msb(cg.b, le)
      reg == Get(F, AddNat(at, cs), ToNat(n) * es + fs)
      ents == TLCEval([i \in 1..ToNat(n) |-> Entry(F, le, big, Sub(reg.b, (i - 1) * es + 1, es))])
      next == Ext(Msb(Sub(reg.b, ToNat(n) * es + 1, fs), le), 8)
  IN IF ~cg.ok \/ AddOv(at, W8(cs)) THEN BadDir
     ELSE IF ~IsNat(n) \/ ToNat(n) > 10000 THEN BadDir     \* not in any file here
     ELSE IF ~reg.ok THEN BadDir
     ELSE IF \E i \in 1..Len(ents) : ents[i].k = "err" THEN [BadDir EXCEPT !.next = next]
     ELSE LET d == DirOf([i \in 1..Len(ents) |-> [tag |-> ents[i].tag, val |-> ents[i].val]])
          IN [k |-> d.k, dir |-> d, next |-> next]

(***************************************************************************)
(* Reading a file: header, then directory after directory.                *)
(* A report is [open, steps]: steps[j] is [r, next, d] with r = "ok",      *)
(* "err" or "none" and next the reported next offset [p, w] afterwards.   *)
(***************************************************************************)
NextIs(nx, w) == IF IsZero(w) THEN nx.p = 0 ELSE nx.p = 1 /\ nx.w = w

RECURSIVE StepsAgree(_, _, _, _, _, _, _)
StepsAgree(F, h, pos, seen, last, steps, j) ==
  IF j > Len(steps) THEN TRUE
  ELSE LET s == steps[j]
       IN IF IsZero(pos) THEN s.r = "none" /\ s.next.p = 0
                              /\ StepsAgree(F, h, pos, seen, last, steps, j + 1)
          ELSE IF pos \in seen
          THEN s.r = "err" /\ NextIs(s.next, pos)
               /\ StepsAgree(F, h, pos, seen, last, steps, j + 1)
          ELSE LET d == DirAt(F, h.le, h.big, pos)
               IN \/ /\ d.k \in {"err", "any"} /\ s.r = "err" /\ NextIs(s.next, pos)
                     /\ StepsAgree(F, h, pos, seen, last, steps, j + 1)
                  \/ /\ d.k \in {"ok", "any"} /\ s.r = "ok" /\ NextIs(s.next, d.next)
                     /\ d.k = "ok" => DirAgrees(d.dir, s.d)
                     /\ StepsAgree(F, h, d.next, seen \cup {pos}, pos, steps, j + 1)

ReportAgrees(F, rep) ==
  LET h == Header(F)
  IN IF h.k = "err" THEN rep.open.r = "err"
     ELSE /\ rep.open.r = "ok"
          /\ rep.open.le = h.le /\ rep.open.big = h.big
          /\ IF IsZero(h.first) THEN \A j \in 1..Len(rep.steps) : rep.steps[j].r \in {"ok", "err", "none"}
             ELSE /\ NextIs(rep.open.next, h.first)
                  /\ StepsAgree(F, h, h.first, {}, W8(0), rep.steps, 1)

(* All directories at once: [r, n, d]: the list, or an error if one of the *)
(* chain is not readable.                                                  *)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(F, h, pos, seen) ==     \* [k, ds]
  IF IsZero(pos) THEN [k |-> "ok", ds |-> <<>>]
  ELSE IF pos \in seen THEN [k |-> "err", ds |-> <<>>]
  ELSE LET d == DirAt(F, h.le, h.big, pos)
       IN IF d.k # "ok" THEN [k |-> d.k, ds |-> <<>>]
          ELSE LET t == ChainFrom(F, h, d.next, seen \cup {pos})
               IN [k |-> t.k, ds |-> <<d.dir>> \o t.ds]
Chain(F) == LET h == Header(F)
            IN IF h.k = "err" THEN [k |-> "err", ds |-> <<>>]
               ELSE IF IsZero(h.first) THEN [k |-> "any", ds |-> <<>>]
               ELSE ChainFrom(F, h, h.first, {})
AllAgrees(F, all) ==
  LET c == Chain(F)
  IN \/ c.k = "any"
     \/ c.k = "err" /\ all.r = "err"
     \/ /\ c.k = "ok" /\ all.r = "ok" /\ Len(all.ds) = Len(c.ds)
        /\ \A i \in 1..Len(c.ds) : DirAgrees(c.ds[i], all.ds[i])

(***************************************************************************)
(* The low-level reader of one directory (lo.at): entries by index, the    *)
(* directory built from them or read as a whole, the word after them.      *)
(***************************************************************************)
LowAgrees(F, lo) ==
  \/ lo.p = 0
  \/ LET h == Header(F)
         cs == CountSize(h.big)
         es == EntrySize(h.big)
         fs == FieldSize(h.big)
         n == Len(lo.ts)
         at == [i \in 1..(n + 1) |-> AddNat(lo.at, cs + (i - 1) * es)]
         past(i, k) == Lt(at[i], lo.at) \/ AddOv(at[i], W8(k))      \* beyond any file
         gs == TLCEval([i \in 1..n |-> IF past(i, es) THEN NoBytes ELSE Get(F, at[i], es)])
         ents == TLCEval([i \in 1..n |-> IF gs[i].ok THEN Entry(F, h.le, h.big, gs[i].b) ELSE EntryErr])
         after == IF past(n + 1, fs) THEN NoBytes ELSE Get(F, at[n + 1], fs)
         whole(i) == gs[i].ok /\ (IF i < n THEN gs[i + 1].ok ELSE after.ok)   \* else the directory is cut off here
         fine == \A i \in 1..n : whole(i) /\ ents[i].k = "ok"
         d == IF fine THEN DirOf([i \in 1..n |-> [tag |-> ents[i].tag, val |-> ents[i].val]]) ELSE DirErr
     IN /\ h.k = "ok" /\ lo.r = "ok"
        /\ n = ToNat(Msb(Get(F, lo.at, cs).b, h.le))
        /\ \A i \in 1..n : IF ~whole(i) THEN lo.ts[i].r \in {"ok", "err"}
                            ELSE IF ents[i].k = "err" THEN lo.ts[i].r = "err"
                            ELSE /\ lo.ts[i].r = "ok" /\ lo.ts[i].tag = ents[i].tag
                                 /\ ValAgrees(ents[i].val, lo.ts[i].val)
        /\ IF fine THEN \A x \in {lo.from, lo.read} :
                             \/ d.k \in {"err", "any"} /\ x.r = "err"
                             \/ d.k = "any" /\ x.r = "ok"
                             \/ d.k = "ok" /\ x.r = "ok" /\ DirAgrees(d, x.d)
           ELSE IF \A i \in 1..n : whole(i) THEN lo.from.r = "none" /\ lo.read.r = "err"
           ELSE lo.from.r \in {"none", "ok", "err"} /\ lo.read.r \in {"ok", "err"}
        /\ IF after.ok THEN lo.fin.r = "ok" /\ NextIs(lo.fin.next, Ext(Msb(after.b, h.le), 8))
           ELSE lo.fin.r = "err"

(***************************************************************************)
(* Writing: the bytes of a header, of a directory and of a value.          *)
(***************************************************************************)
HeaderBytes(le, big, first) ==
  (IF le THEN <<73, 73>> ELSE <<77, 77>>)
  \o (IF big THEN Msb(<<0, 43>>, le) \o Msb(<<0, 8>>, le) \o <<0, 0>> \o Msb(Ext(first, 8), le)
      ELSE Msb(<<0, 42>>, le) \o Msb(Ext(first, 4), le))

(* A value to store is [ty, vs]: field type and elements (words; for text  *)
(* a sequence of one-byte words including its NUL).                        *)
RECURSIVE StoreAll(_, _, _, _)
StoreAll(ty, vs, le, i) == IF i > Len(vs) THEN <<>>
                           ELSE StoreElem(ty, vs[i], le) \o StoreAll(ty, vs, le, i + 1)
Stored(v, le) == StoreAll(v.ty, v.vs, le, 1)
Meaning(v) == IF Len(v.vs) = 0 THEN ListOf(<<>>)
              ELSE IF v.ty = 2 THEN Val("Ascii", UptoNul(Flat(v.vs)))
              ELSE IF Len(v.vs) = 1 THEN Val(KindOf(v.ty), v.vs[1])
              ELSE ListOf([i \in 1..Len(v.vs) |-> Val(KindOf(v.ty), v.vs[i])])
Inline(v, big) == Len(v.vs) * TypeSize(v.ty) <= FieldSize(big)

(* The entry of tag t with value v, stored at `at` if it is not inline.    *)
EntryBytes(t, v, le, big, at) ==
  LET fs == FieldSize(big)
      st == Stored(v, le)
  IN Msb(OfNat(t, 2), le) \o Msb(OfNat(v.ty, 2), le) \o Msb(OfNat(Len(v.vs), fs), le)
     \o (IF Inline(v, big) THEN st \o Zeros(fs - Len(st)) ELSE Msb(Ext(at, fs), le))
=============================================================================
