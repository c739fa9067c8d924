---------------------------- MODULE MCReadahead ----------------------------
(***************************************************************************)
(* The design: callers take turns (a lock, held across the source request) *)
(* to look at the cached bytes, and fetch what is missing.  Every step is  *)
(* one of Readahead.tla.  Prints the schedules of the environment: calls,  *)
(* answers and cancellations.                                              *)
(***************************************************************************)
EXTENDS Readahead, FiniteSets, TLC, Json
CONSTANTS N, K,            \* length of the source, number of callers
          Inits, Factors,  \* Factors: pairs <<num, den>>
          MaxFaults, Record
FactorTwo == {<<2, 1>>}
FactorsDef == {<<2, 1>>, <<1, 2>>, <<0, 1>>}
VARIABLES cf, st, lock, queue, res, faults, hist
vars == <<cf, st, lock, queue, res, faults, hist>>
Data == [i \in 1..N |-> i]
Ids == 1..K
Stored == SubSeq(Data, 1, st.clen)

Init == /\ \E str \in BOOLEAN, in \in Inits, f \in Factors :
             cf = [n |-> N, strict |-> str, init |-> in, num |-> f[1], den |-> f[2]]
        /\ st = Start(K) /\ lock = 0 /\ queue = <<>> /\ faults = 0 /\ hist = <<>>
        /\ res = [i \in Ids |-> <<"none">>]
Log(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
Ev(a, i, lo, hi, f, k) == [a |-> a, i |-> i, lo |-> lo, hi |-> hi, f |-> f, k |-> k]

DoCall(i, lo, hi) ==
  /\ \A j \in 1..(i - 1) : st.calls[j].s # "idle"        \* callers are interchangeable
  /\ st' \in Call(st, i, lo, hi) /\ queue' = Append(queue, i)
  /\ Log(Ev("call", i, lo, hi, "none", 0)) /\ UNCHANGED <<cf, lock, res, faults>>
Acquire == /\ lock = 0 /\ queue # <<>> /\ lock' = Head(queue) /\ queue' = Tail(queue)
           /\ UNCHANGED <<cf, st, res, faults, hist>>
(* The holder of the lock, not waiting for the source.                     *)
Running == lock # 0 /\ ~st.fl.on
Slice(c, s) == SubSeq(Data, c.lo + 1, Min(c.hi, s.clen))
Finish(i, r) == /\ st' \in Ret(st, i) /\ res' = [res EXCEPT ![i] = r] /\ lock' = 0
                /\ UNCHANGED <<cf, queue, faults, hist>>
Hit == Running /\ LET c == st.calls[lock] IN Cached(st, c) /\ Finish(lock, <<"ok", Slice(c, st)>>)
Fetch == Running /\ LET c == st.calls[lock]
  IN /\ ~Cached(st, c) /\ c.a \in {"none", "eof"} /\ (c.a = "eof" => c.hi <= cf.n)
     /\ LET rounded == IF st.clen = 0 THEN cf.init
                       ELSE (2 * st.clen * cf.num + cf.den) \div (2 * cf.den)
            to == IF c.a = "eof" THEN cf.n ELSE st.clen + Max(rounded, c.hi - st.clen)
        IN st' \in Req(cf, st, lock, st.clen, to)
     /\ UNCHANGED <<cf, lock, queue, res, faults, hist>>
(* The bytes just fetched do not reach the end of the range, or none came. *)
GiveUp == Running /\ LET c == st.calls[lock]
  IN /\ ~Cached(st, c) /\ c.a # "none" /\ ~(c.a = "eof" /\ c.hi <= cf.n)
     /\ IF c.a \in {"ok", "short"} THEN Finish(lock, <<"ok", Slice(c, st)>>) ELSE Finish(lock, <<"err">>)
Answer(kind) ==
  /\ st.fl.on
  /\ LET av == Available(cf, st)
     IN CASE kind = "ok" -> ~(cf.strict /\ PastEnd(cf, st)) /\ st' \in Ans(cf, st, "ok", av) /\ UNCHANGED faults
          [] kind = "eof" -> cf.strict /\ PastEnd(cf, st) /\ st' \in Ans(cf, st, "eof", 0) /\ UNCHANGED faults
          [] kind = "fail" -> faults < MaxFaults /\ faults' = faults + 1 /\ st' \in Ans(cf, st, "fail", 0)
          [] kind = "short" -> /\ faults < MaxFaults /\ faults' = faults + 1 /\ av > 0
                               /\ ~(cf.strict /\ PastEnd(cf, st))
                               /\ st' \in Ans(cf, st, "short", av \div 2)
  /\ Log(Ev("ans", 0, 0, 0, IF kind = "eof" THEN "ok" ELSE kind, 0))
  /\ UNCHANGED <<cf, lock, queue, res>>
DoCancel(i) ==
  /\ faults < MaxFaults /\ faults' = faults + 1
  /\ \E s1 \in Cancel(st, i) :
       st' = IF s1.fl.on /\ s1.fl.by = i THEN CHOOSE s2 \in Drop(s1) : TRUE ELSE s1
  /\ lock' = (IF lock = i THEN 0 ELSE lock)
  /\ queue' = SelectSeq(queue, LAMBDA j : j # i)
  /\ Log(Ev("cancel", i, 0, 0, "none", 0)) /\ UNCHANGED <<cf, res>>

Ranges == {<<0, 1>>, <<0, N>>, <<1, 3>>, <<2, 2>>, <<2, 4>>, <<3, N + 2>>, <<N - 1, N>>}
Internal == Acquire \/ Hit \/ Fetch \/ GiveUp
(* The environment acts when the cache has nothing to do by itself.        *)
Quiet == ~ENABLED Internal
Env == \/ \E i \in Ids, r \in Ranges : DoCall(i, r[1], r[2])
       \/ \E k \in {"ok", "eof", "fail", "short"} : Answer(k)
       \/ \E i \in Ids : DoCancel(i)
Next == Internal \/ ((Record => Quiet) /\ Env)
Done == \A i \in Ids : st.calls[i].s \in {"done", "gone"}
Out == ~(Record /\ Done) \/ PrintT(ToJson([cf |-> cf, sched |-> hist]))
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(\E k \in {"ok", "eof"} : Answer(k))

Transparent == \A i \in Ids : LET c == st.calls[i] IN
  c.s = "done" => IF res[i][1] = "ok" THEN OkResult(cf, Data, c, res[i][2]) ELSE MayFail(cf, c)
(* No fault, no failure, for every range inside the source.                *)
Reliable == \A i \in Ids : LET c == st.calls[i] IN
  (c.s = "done" /\ c.hi <= N /\ c.a \notin {"fail", "short"}) => res[i] = <<"ok", SubSeq(Data, c.lo + 1, c.hi)>>
Locked == st.fl.on => st.fl.by = lock /\ st.fl.from = st.clen
NoRefetch == [][st'.clen >= st.clen /\ (st'.fl.on /\ ~st.fl.on => st'.fl.from = st.clen)]_vars
Returns == \A i \in Ids : (st.calls[i].s = "wait") ~> (st.calls[i].s # "wait")
=============================================================================
