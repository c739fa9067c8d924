--------------------------- MODULE ReadaheadTrace ---------------------------
(***************************************************************************)
(* Judges recorded runs of the readahead cache: o.ev is the sequence of    *)
(* events.  Part "data" is about what callers are told, whatever the       *)
(* requests to the source; part "requests" is about these.                 *)
(***************************************************************************)
EXTENDS Readahead, Judging
CONSTANT Part

Callers(o) == Len(SelectSeq(o.ev, LAMBDA e : e.a = "call"))
Known(s, i) == i \in DOMAIN s.calls

(* Part "data": set of states after event e (empty: not allowed).          *)
DataStep(o, s, e) ==
  CASE e.a = "call" -> Call(s, e.i, e.lo, e.hi)
    [] e.a = "cancel" -> Cancel(s, e.i)
    [] e.a = "ans" -> IF Known(s, e.i) THEN {[s EXCEPT !.calls[e.i].a = e.f]} ELSE {s}
    [] e.a = "ret" ->
         LET c == s.calls[e.i]
         IN IF \/ e.f = "ok" /\ OkResult(o.cf, o.data, c, e.b)
               \/ e.f = "err" /\ MayFail(o.cf, c)
            THEN Ret(s, e.i) ELSE {}
    [] e.a = "end" -> IF \E i \in DOMAIN s.calls : s.calls[i].s = "wait" THEN {} ELSE {s}
    [] OTHER -> {s}

(* Part "requests".                                                         *)
ReqStep(o, s, e) ==
  CASE e.a = "call" -> Call(s, e.i, e.lo, e.hi)
    [] e.a = "cancel" -> Cancel(s, e.i)
    [] e.a = "req" -> IF Known(s, e.i) THEN Req(o.cf, s, e.i, e.lo, e.hi) ELSE {}
    [] e.a = "ans" -> Ans(o.cf, s, e.f, e.k)
    [] e.a = "drop" -> Drop(s)
    [] e.a = "ret" -> Ret(s, e.i)
    [] OTHER -> {s}

RECURSIVE Run(_, _, _)
Run(o, s, k) ==
  IF k > Len(o.ev) THEN TRUE
  ELSE LET n == TLCEval(IF Part = "data" THEN DataStep(o, s, o.ev[k]) ELSE ReqStep(o, s, o.ev[k]))
       IN n # {} /\ \A t \in n : Run(o, t, k + 1)
Agree(o) == Run(o, Start(Callers(o)), 1)
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
