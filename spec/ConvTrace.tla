----------------------------- MODULE ConvTrace -----------------------------
(* Judges recorded conversions of tag values.                              *)
EXTENDS TiffValue, Judging
Agree(o) ==
  /\ \A i \in 1..Len(o.s) : Agrees(Scalar(o.v, o.s[i].to), o.s[i])
  /\ \A i \in 1..Len(o.l) : Agrees(ToVec(o.v, o.l[i].to), o.l[i])
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
