----------------------------- MODULE FileTrace -----------------------------
(* Judges recorded runs of a reader around one file: o.ev as in            *)
(* ReadaheadTrace; "fault" is a failed file operation on behalf of e.i.    *)
EXTENDS SharedFile, Judging
Callers(o) == Len(SelectSeq(o.ev, LAMBDA e : e.a = "call"))
Step(o, cs, e) ==
  CASE e.a = "call" -> [k |-> TRUE, cs |-> [cs EXCEPT ![e.i] = NewCall(e.lo, e.hi)]]
    [] e.a = "cancel" -> [k |-> TRUE, cs |-> [cs EXCEPT ![e.i].s = "gone"]]
    [] e.a = "fault" -> [k |-> TRUE, cs |-> IF e.i \in DOMAIN cs THEN [cs EXCEPT ![e.i].a = "fail"] ELSE cs]
    [] e.a = "ret" -> [k |-> \/ e.f = "ok" /\ OkAllowed(o.data, cs[e.i], e.b)
                             \/ e.f = "err" /\ ErrAllowed(o.data, cs[e.i]),
                       cs |-> [cs EXCEPT ![e.i].s = "done"]]
    [] e.a = "end" -> [k |-> \A i \in DOMAIN cs : cs[i].s # "wait", cs |-> cs]
    [] OTHER -> [k |-> TRUE, cs |-> cs]
RECURSIVE Run(_, _, _)
Run(o, cs, k) == IF k > Len(o.ev) THEN TRUE
                 ELSE LET n == TLCEval(Step(o, cs, o.ev[k])) IN n.k /\ Run(o, n.cs, k + 1)
Agree(o) == Run(o, [i \in 1..Callers(o) |-> Idle], 1)
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
