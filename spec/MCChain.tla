------------------------------ MODULE MCChain ------------------------------
(***************************************************************************)
(* Files of up to three directories, placed in every order, with every     *)
(* combination of links between them (loops, links to nowhere, links into  *)
(* the header).  Reading follows the links: each linked directory once, in *)
(* link order, then the end; a loop or a link to nowhere is an error.      *)
(***************************************************************************)
EXTENDS TiffWrite, TLC, Json
CONSTANTS Deep

Entries(i) == Needed \o << E(65000, 3, << OfNat(100 + i, 2) >>),
                           E(65001, 12, << <<i, 2, 3, 4, 5, 6, 7, 8>> >>) >>
Ids == 1..3
Perms == {p \in [Ids -> Ids] : \A i, j \in Ids : i # j => p[i] # p[j]}
Block(big) == BlockSize(Entries(1), big)
(* p[i]: the place of directory i; gap: bytes between directories.         *)
Pos(p, i, gap, big) == HeaderSize(big) + gap + (p[i] - 1) * (Block(big) + gap)
End(gap, big) == HeaderSize(big) + 3 * (Block(big) + gap)
Links == {0, 1, 2, 3, 4, 5, 6}    \* end, the directories, past the end, 4 before the end, the header
LinkPos(l, p, gap, big) ==
  CASE l = 0 -> W8(0) [] l \in Ids -> W8(Pos(p, l, gap, big))
    [] l = 4 -> W8(End(gap, big) + 7) [] l = 5 -> W8(End(gap, big) - 4) [] l = 6 -> W8(2)

VARIABLE q      \* [kind, p, first, next, le, big, gap]
Bytes(x) ==
  LET at(place) == CHOOSE i \in Ids : x.p[i] = place
      blk(i) == DirBytes(Entries(i), x.le, x.big, Pos(x.p, i, x.gap, x.big),
                         LinkPos(x.next[i], x.p, x.gap, x.big))
      pad == [k \in 1..x.gap |-> 170]
  IN HeaderBytes(x.le, x.big, LinkPos(x.first, x.p, x.gap, x.big))
     \o pad \o blk(at(1)) \o pad \o blk(at(2)) \o pad \o blk(at(3))
Init == \E p \in Perms, le, big \in BOOLEAN :
          q = [kind |-> "start", p |-> p, first |-> 1, next |-> <<0, 0, 0>>, le |-> le, big |-> big, gap |-> 0]
(* Quick: one byte order and variant per placement and first link.         *)
Picked(x) == Deep \/ ((x.p[1] + x.next[1] + x.next[2] + x.next[3] + (IF x.le THEN 1 ELSE 0)
                       + (IF x.big THEN 2 ELSE 0)) % 16 = 0)
Next ==
  /\ q.kind = "start"
  /\ \E f \in {1, 2}, n1, n2, n3 \in Links, g \in {0, 3} :
       /\ q' = [q EXCEPT !.kind = "file", !.first = f, !.next = <<n1, n2, n3>>, !.gap = g]
       /\ Picked(q')
  /\ PrintT(ToJson([b |-> Bytes(q')]))

(* Following the links: the directories in order and how it ends.          *)
RECURSIVE Walk(_, _)
Walk(i, seen) == IF i = 0 THEN [k |-> "ok", w |-> <<>>]
                 ELSE IF i \in seen \/ i > 3 THEN [k |-> "err", w |-> <<>>]
                 ELSE LET t == Walk(q.next[i], seen \cup {i}) IN [k |-> t.k, w |-> <<i>> \o t.w]
IdOf(d) == ToNat((CHOOSE e \in d.o : e.tag = 65000).val.v) - 100
Follows ==
  q.kind = "file" =>
    LET c == Chain(FileOf(Bytes(q)))
        w == Walk(q.first, {})
    IN c.k = w.k /\ (c.k = "ok" => [i \in 1..Len(c.ds) |-> IdOf(c.ds[i])] = w.w)
=============================================================================
