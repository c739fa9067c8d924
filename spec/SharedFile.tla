----------------------------- MODULE SharedFile -----------------------------
(***************************************************************************)
(* Range reads by several callers of one file that has a single cursor.    *)
(* What a caller may be told depends only on the file and on what the file *)
(* did to this caller: c = [s, lo, hi, a], a = "fail" after an error of a  *)
(* file operation made on behalf of this caller.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
NewCall(lo, hi) == [s |-> "wait", lo |-> lo, hi |-> hi, a |-> "none"]
Idle == [s |-> "idle", lo |-> 0, hi |-> 0, a |-> "none"]
InFile(n, c) == c.hi <= n
Empty(c) == c.hi <= c.lo
Want(data, c) == SubSeq(data, c.lo + 1, c.hi)
OkAllowed(data, c, b) == \/ InFile(Len(data), c) /\ b = Want(data, c)
                         \/ Empty(c) /\ b = <<>>
ErrAllowed(data, c) == c.a = "fail" \/ ~InFile(Len(data), c)
=============================================================================
