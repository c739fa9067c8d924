------------------------------- MODULE MCBad -------------------------------
(***************************************************************************)
(* A reader of files that claim anything: numbers of entries, counts,      *)
(* types, offsets and links are extreme.  The reader is modelled read by   *)
(* read.  It ends, after a number of reads that is bounded by the bytes    *)
(* that are there, holding no more memory than they justify, with the      *)
(* result the file denotes (Chain) or an error.  Prints every file.        *)
(***************************************************************************)
EXTENDS TiffWrite, TLC, Json
CONSTANTS Deep

Max(n) == [i \in 1..n |-> 255]
Top(n) == [i \in 1..n |-> IF i = 1 THEN 128 ELSE 0]
Ns(big) == LET k == CountSize(big)
           IN {OfNat(7, k), OfNat(0, k), OfNat(1, k), OfNat(8, k), OfNat(300, k), Max(k), Top(k)}
           \cup (IF big THEN {OfNat(16777216, k), << 12, 204, 204, 204, 204, 204, 204, 205 >>} ELSE {})
Cs(big) == LET k == FieldSize(big)
           IN {OfNat(1, k), OfNat(0, k), OfNat(2, k), OfNat(5, k), OfNat(65536, k), OfNat(16777217, k),
               Max(k), Top(k), OfNat(1073741825, k)}
           \cup (IF big THEN {<< 32, 0, 0, 0, 0, 0, 0, 1 >>, << 0, 0, 0, 1, 0, 0, 0, 0 >>} ELSE {})
Tys == {1, 2, 3, 5, 12, 16, 0, 14, 65535}
Os(big) == LET k == FieldSize(big)
           IN {OfNat(0, k), OfNat(9, k), OfNat(170, k), Max(k), Top(k)}
           \cup (IF big THEN {<< 255, 255, 255, 255, 255, 255, 255, 250 >>} ELSE {})
Ls == {"end", "self", "past", "max", "header"}
Tags == {65000, 273, 324, 34735, 330}

VARIABLES q, rd
vars == <<q, rd>>
Entries == Needed \o << E(65001, 12, << <<1, 2, 3, 4, 5, 6, 7, 8>> >>) >>
(* The odd entry comes last.                                               *)
Link(x) == LET k == FieldSize(x.big)
           IN CASE x.l = "end" -> Zeros(k) [] x.l = "self" -> OfNat(HeaderSize(x.big), k)
                [] x.l = "past" -> OfNat(5000, k) [] x.l = "max" -> Max(k) [] x.l = "header" -> OfNat(2, k)
Bytes(x) ==
  LET at == HeaderSize(x.big)
      es == EntrySize(x.big)
      d == DirBytes(Entries, x.le, x.big, at, Zeros(8))
      cs == CountSize(x.big)
      odd == Msb(OfNat(x.tag, 2), x.le) \o Msb(OfNat(x.ty, 2), x.le) \o Msb(x.c, x.le) \o Msb(x.o, x.le)
      body == SubSeq(d, cs + 1, cs + 6 * es)
      tail == IF x.big THEN <<>> ELSE <<1, 2, 3, 4, 5, 6, 7, 8>>
      b == HeaderBytes(x.le, x.big, W8(at)) \o Msb(x.n, x.le) \o body \o odd \o Msb(Link(x), x.le) \o tail
  IN SubSeq(b, 1, Len(b) - x.cut)

Start == [ph |-> "header", pos |-> W8(0), seen |-> {}, i |-> 0, left |-> 0, ents |-> <<>>, ds |-> <<>>,
          reads |-> 0, mem |-> 0, next |-> W8(0)]
Init == /\ \E le, big \in BOOLEAN, tag \in Tags :
             q = [kind |-> "start", le |-> le, big |-> big, tag |-> tag, n |-> <<>>, c |-> <<>>, o |-> <<>>,
                  ty |-> 0, l |-> "end", cut |-> 0, b |-> <<>>]
        /\ rd = Start
(* How far a file is from an ordinary one; the quick run keeps few.        *)
Odd(x) == (IF x.n = OfNat(7, Len(x.n)) THEN 0 ELSE 1) + (IF x.l = "end" THEN 0 ELSE 1)
          + (IF x.cut = 0 THEN 0 ELSE 1)
Choose ==
  /\ q.kind = "start" /\ UNCHANGED rd
  /\ \E n \in Ns(q.big), c \in Cs(q.big), o \in Os(q.big), ty \in Tys, l \in Ls, cut \in {0, 3, 30} :
       /\ Deep \/ (ToNat(Sub(n, Len(n), 1)) + ToNat(Sub(c, 1, 1)) + Len(c) + ToNat(Sub(o, Len(o), 1)) + ty + q.tag) % 11 = 0
       /\ LET x == [q EXCEPT !.kind = "file", !.n = n, !.c = c, !.o = o, !.ty = ty, !.l = l, !.cut = cut]
          IN Odd(x) <= 1 /\ (Deep \/ Odd(x) = 0 \/ (c = OfNat(5, Len(c)) /\ q.tag = 65000))
             /\ q' = [x EXCEPT !.b = Bytes(x)]
       /\ PrintT(ToJson([b |-> q'.b]))

F == FileOf(q.b)
HH == Header(F)
Stop(k) == rd' = [rd EXCEPT !.ph = k, !.reads = @ + 1]
Need(p, n) == Get(F, p, n)
(* Claims are compared with what is there before memory is taken.          *)
ReadHeader == /\ rd.ph = "header"
              /\ IF HH.k = "err" THEN Stop("err")
                 ELSE rd' = [rd EXCEPT !.ph = "count", !.pos = HH.first, !.reads = @ + 1]
ReadCount == /\ rd.ph = "count"
             /\ LET g == Need(rd.pos, CountSize(q.big))
                    n == Msb(g.b, q.le)
                IN IF IsZero(rd.pos) THEN rd' = [rd EXCEPT !.ph = "done"]
                   ELSE IF rd.pos \in rd.seen \/ ~g.ok THEN Stop("err")
                   ELSE IF ~IsNat(n) \/ ToNat(n) > Len(q.b) THEN Stop("err")
                   ELSE rd' = [rd EXCEPT !.ph = "entry", !.i = 0, !.left = ToNat(n), !.reads = @ + 1,
                                         !.seen = @ \cup {rd.pos}, !.ents = <<>>]
ReadEntry == /\ rd.ph = "entry" /\ rd.left > 0
             /\ LET g == Need(AddNat(rd.pos, CountSize(q.big) + rd.i * EntrySize(q.big)), EntrySize(q.big))
                    e == Entry(F, q.le, q.big, g.b)
                IN IF ~g.ok \/ e.k = "err" THEN Stop("err")
                   ELSE rd' = [rd EXCEPT !.i = @ + 1, !.left = @ - 1, !.reads = @ + 2,
                                         !.ents = Append(@, [tag |-> e.tag, val |-> e.val]),
                                         !.mem = @ + 1 + Len(e.val.v) + Len(e.val.l)]
ReadLink == /\ rd.ph = "entry" /\ rd.left = 0
            /\ LET g == Need(AddNat(rd.pos, CountSize(q.big) + rd.i * EntrySize(q.big)), FieldSize(q.big))
                   d == DirOf(rd.ents)
               IN IF ~g.ok THEN Stop("err")
                  ELSE IF d.k # "ok" THEN Stop(d.k)
                  ELSE rd' = [rd EXCEPT !.ph = "count", !.pos = Ext(Msb(g.b, q.le), 8), !.reads = @ + 1,
                                        !.ds = Append(@, d), !.ents = <<>>]
Read == q.kind = "file" /\ (ReadHeader \/ ReadCount \/ ReadEntry \/ ReadLink) /\ UNCHANGED q
Next == Choose \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Read)

Over == rd.ph \in {"err", "done", "any"}
Bounded == /\ rd.reads <= 2 * Len(q.b) \/ q.kind = "start"
           /\ q.kind = "file" => rd.mem <= 3 * Len(q.b)
           /\ (q.kind = "file" /\ Over) =>
                LET ch == Chain(F)
                IN /\ rd.ph = "err" <=> ch.k = "err"
                   /\ rd.ph = "done" <=> ch.k = "ok"
                   /\ rd.ph = "done" => ch.ds = rd.ds
Ends == (q.kind = "file") ~> Over
=============================================================================
