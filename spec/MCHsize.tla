------------------------------ MODULE MCHsize ------------------------------
(***************************************************************************)
(* Files with tiles and strips: the smallest non-zero data offset over all *)
(* directories is at least the end of the metadata if the metadata comes   *)
(* first, so that many bytes hold every directory and value.               *)
(***************************************************************************)
EXTENDS Session, TiffWrite, TLC, Json
CONSTANTS Deep
VARIABLE q     \* [kind, le, big, d1, d2, gap]: per directory what it has

(* What a directory has: tile offsets and/or strip offsets, as distances   *)
(* behind the end of the metadata; -1: offset 0 (no data).                 *)
Tables == { <<>>, <<0>>, <<5>>, <<-1>>, <<-1, 3>>, <<9, 0>>, <<4, -1, 2>> }
Off(x, end) == IF x < 0 THEN W8(0) ELSE W8(end + x)
Tab(tag, t, end) == IF t = <<>> THEN <<>>
                    ELSE << E(tag, 4, [i \in 1..Len(t) |-> Ext(Off(t[i], end), 4)]) >>
Entries(d, end) == Needed \o Tab(273, d[1], end) \o Tab(324, d[2], end)
Ds(x, end) == << Entries(x.d1, end), Entries(x.d2, end) >>
EndOf(x) == HeaderSize(x.big) + BlockSize(Entries(x.d1, 0), x.big) + BlockSize(Entries(x.d2, 0), x.big)
Bytes(x) == FileBytes(Ds(x, EndOf(x)), x.le, x.big)
Init == \E le, big \in BOOLEAN, a \in Tables :
          q = [kind |-> "start", le |-> le, big |-> big, d1 |-> <<a, <<>> >>, d2 |-> <<a, <<>> >>]
Next == /\ q.kind = "start"
        /\ \E a, b, c \in Tables :
             /\ q' = [q EXCEPT !.kind = "file", !.d1 = <<q.d1[1], a>>, !.d2 = <<b, c>>]
             /\ \E t \in {q.d1[1], a, b, c} : \E i \in 1..Len(t) : t[i] >= 0
             /\ Deep \/ (Len(a) + 3 * Len(b) + 5 * Len(c) + Len(q.d1[1]) + (IF q.le THEN 1 ELSE 0)) % 3 = 0
             /\ PrintT(ToJson([b |-> Bytes(q')]))
Suffices ==
  q.kind = "file" =>
    LET b == Bytes(q)
        F == FileOf(b)
        ch == Chain(F)
        st == [Start EXCEPT !.dirs = [i \in 1..Len(ch.ds) |-> [dir |-> ch.ds[i]]]]
        s == DataOffsets(st)
        lo == CHOOSE w \in s : \A v \in s : Le(w, v)
    IN /\ ch.k = "ok" /\ Len(ch.ds) = 2
       /\ Le(W8(Len(b)), lo)
       (* only the first `lo` bytes are needed *)
       /\ Chain([F EXCEPT !.len = lo]).k = "ok" /\ Chain([F EXCEPT !.len = lo]).ds = ch.ds
=============================================================================
