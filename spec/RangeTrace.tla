----------------------------- MODULE RangeTrace -----------------------------
(* Judges recorded range requests through a reader: o.steps.  Of a wrapped *)
(* user's reader ("user") the calls it saw and its answers are known.      *)
EXTENDS RangeReq, Judging
StepAgrees(o, s) ==
  IF o.kind = "user"
  THEN IF s.m = "conc"
       THEN /\ s.r \in {"ok", "err"} /\ Len(s.log) = Len(s.rs)
            /\ \A i \in 1..Len(s.log) : s.log[i].m = "one"
            /\ s.r = "ok" => \A i \in 1..Len(s.rs) : \E j \in 1..Len(s.log) :
                               s.log[j].rs = <<s.rs[i]>> /\ s.ans[j].bs = <<s.bs[i]>>
       ELSE /\ s.log = <<[m |-> s.m, rs |-> s.rs]>>
            /\ s.ans = <<[r |-> s.r, bs |-> s.bs]>>
  ELSE \/ s.r = "ok" /\ OkAllowed(o.data, s.rs, s.bad, s.bs)
       \/ s.r = "err" /\ ErrAllowed(o.data, s.rs, s.bad)
Agree(o) == \A i \in 1..Len(o.steps) : StepAgrees(o, o.steps[i])
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
