----------------------------- MODULE TypedTrace -----------------------------
(***************************************************************************)
(* Judges recorded arrays of typed elements made from raw bytes (in the    *)
(* byte order of this machine): the same elements in the same order, or an *)
(* error if the bytes are no whole number of elements.                     *)
(***************************************************************************)
EXTENDS Pipeline, Judging
TypedAgrees(o) ==
  LET n == ElemSize(o.ty)
      x == o.out
  IN /\ o.ty # "none" => o.size = n
     /\ IF o.ty = "bool" THEN x.r \in {"ok", "err"}      \* bits need a count
        ELSE IF Len(o.b) % n # 0 THEN x.r = "err"
        ELSE /\ x.r = "ok" /\ x.var = (IF o.ty = "none" THEN "u8" ELSE o.ty)
             /\ x.len = Len(o.b) \div n /\ x.none = (IF x.len = 0 THEN 1 ELSE 0)
             /\ x.e = Native(o.b, n) /\ x.b = o.b
Judge == TypedAgrees(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
