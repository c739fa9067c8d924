------------------------------ MODULE RangeReq ------------------------------
(***************************************************************************)
(* Range requests to a byte string: what a caller may be told.  A request  *)
(* names a list of ranges <<lo, hi>>; bad is the number of times the       *)
(* source failed while it was served.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
LeastOf(a, b) == IF a < b THEN a ELSE b
Whole(data, r) == SubSeq(data, r[1] + 1, LeastOf(r[2], Len(data)))
InData(data, r) == r[2] <= Len(data)
EmptyRange(r) == r[2] <= r[1]
PrefixOf(b, w) == Len(b) <= Len(w) /\ b = SubSeq(w, 1, Len(b))
PieceAllowed(data, r, b) == IF EmptyRange(r) THEN b = <<>>
                            ELSE IF InData(data, r) THEN b = Whole(data, r)
                            ELSE PrefixOf(b, Whole(data, r))
OkAllowed(data, rs, bad, bs) ==
  /\ bad = 0
  /\ Len(bs) = Len(rs)
  /\ \A i \in 1..Len(rs) : PieceAllowed(data, rs[i], bs[i])
ErrAllowed(data, rs, bad) == bad > 0 \/ \E i \in 1..Len(rs) : ~InData(data, rs[i]) \/ EmptyRange(rs[i])

(* HTTP (RFC 9110): a range header names first and last byte; a server     *)
(* answers with the part it has (206), the whole content if it does not do *)
(* ranges (200), or a status of failure.                                   *)
HeaderOf(r) == <<r[1], r[2] - 1>>
Serve(data, mode, h) ==
  CASE mode = "200" -> [st |-> 200, b |-> data]
    [] mode = "bad" -> [st |-> 500, b |-> <<0, 0, 0, 0, 0, 0>>]
    [] OTHER -> IF h[1] >= Len(data) THEN [st |-> 416, b |-> <<>>]
                ELSE [st |-> 206, b |-> SubSeq(data, h[1] + 1, LeastOf(h[2] + 1, Len(data)))]
=============================================================================
