---------------------------- MODULE MCSharedFile ----------------------------
(***************************************************************************)
(* The design: a caller locks the file, moves its cursor, reads until its  *)
(* range is complete or the file ends, and unlocks.  The file completes    *)
(* each operation when it likes, splits reads, and fails; a caller may be  *)
(* cancelled at any time, in which case an operation under way may or may  *)
(* not have moved the cursor.  Prints the schedules.                       *)
(***************************************************************************)
EXTENDS SharedFile, FiniteSets, TLC, Json
CONSTANTS N, K, MaxFaults, Record,
          Locking, Seeking       \* TRUE; FALSE describes broken designs
VARIABLES calls, pc, got, pos, owner, queue, res, faults, hist
vars == <<calls, pc, got, pos, owner, queue, res, faults, hist>>
Data == [i \in 1..N |-> i]
Ids == 1..K
Init == /\ calls = [i \in Ids |-> Idle] /\ pc = [i \in Ids |-> "idle"] /\ got = [i \in Ids |-> <<>>]
        /\ pos = 0 /\ owner = 0 /\ queue = <<>> /\ res = [i \in Ids |-> <<"none">>] /\ faults = 0 /\ hist = <<>>
Log(a, i, lo, hi, f) == hist' = IF Record THEN Append(hist, [a |-> a, i |-> i, lo |-> lo, hi |-> hi, f |-> f]) ELSE hist
DoCall(i, lo, hi) ==
  /\ calls[i].s = "idle" /\ \A j \in 1..(i - 1) : calls[j].s # "idle"
  /\ calls' = [calls EXCEPT ![i] = NewCall(lo, hi)]
  /\ IF Locking THEN queue' = Append(queue, i) /\ pc' = [pc EXCEPT ![i] = "queue"]
     ELSE queue' = queue /\ pc' = [pc EXCEPT ![i] = IF Seeking THEN "seek" ELSE "read"]
  /\ Log("call", i, lo, hi, "none") /\ UNCHANGED <<got, pos, owner, res, faults>>
Acquire ==
  /\ owner = 0 /\ queue # <<>> /\ owner' = Head(queue) /\ queue' = Tail(queue)
  /\ pc' = [pc EXCEPT ![Head(queue)] = IF Seeking THEN "seek" ELSE "read"]
  /\ UNCHANGED <<calls, got, pos, res, faults, hist>>
Return(i, r) == /\ calls' = [calls EXCEPT ![i].s = "done"] /\ pc' = [pc EXCEPT ![i] = "done"]
                /\ res' = [res EXCEPT ![i] = r] /\ owner' = (IF owner = i THEN 0 ELSE owner)
Full(i) == Len(got[i]) = calls[i].hi - calls[i].lo
SeekDone(i) ==
  /\ pc[i] = "seek" /\ pos' = calls[i].lo /\ pc' = [pc EXCEPT ![i] = "read"]
  /\ Log("op", 0, 0, 0, "ok") /\ UNCHANGED <<calls, got, owner, queue, res, faults>>
Complete(i) == /\ pc[i] = "read" /\ Full(i) /\ Return(i, <<"ok", got[i]>>)
               /\ UNCHANGED <<got, pos, queue, faults, hist>>
ReadDone(i, short) ==
  LET left == calls[i].hi - calls[i].lo - Len(got[i])
      avail == IF pos < N THEN N - pos ELSE 0
      k == IF short THEN 1 ELSE IF left < avail THEN left ELSE avail
  IN /\ pc[i] = "read" /\ ~Full(i) /\ (short => avail > 1 /\ left > 1)
     /\ Log("op", 0, 0, 0, IF short THEN "short" ELSE "ok")
     /\ IF avail = 0
        THEN Return(i, <<"err">>) /\ UNCHANGED <<got, pos, queue, faults>>
        ELSE /\ got' = [got EXCEPT ![i] = @ \o SubSeq(Data, pos + 1, pos + k)] /\ pos' = pos + k
             /\ UNCHANGED <<calls, pc, res, owner, queue, faults>>
Fail(i) ==
  /\ faults < MaxFaults /\ faults' = faults + 1
  /\ pc[i] = "seek" \/ (pc[i] = "read" /\ ~Full(i))
  /\ calls' = [calls EXCEPT ![i].s = "done", ![i].a = "fail"] /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ res' = [res EXCEPT ![i] = <<"err">>] /\ owner' = (IF owner = i THEN 0 ELSE owner)
  /\ Log("op", 0, 0, 0, "fail") /\ UNCHANGED <<got, pos, queue>>
Cancel(i) ==
  /\ faults < MaxFaults /\ faults' = faults + 1 /\ calls[i].s = "wait"
  /\ calls' = [calls EXCEPT ![i].s = "gone"] /\ pc' = [pc EXCEPT ![i] = "done"]
  /\ queue' = SelectSeq(queue, LAMBDA j : j # i) /\ owner' = (IF owner = i THEN 0 ELSE owner)
  /\ \E drift \in BOOLEAN :
       /\ pos' = (IF ~drift THEN pos
                  ELSE IF pc[i] = "seek" THEN calls[i].lo
                  ELSE IF pc[i] = "read" /\ pos < N THEN pos + 1 ELSE pos)
       /\ Log("cancel", i, 0, 0, IF drift THEN "drift" ELSE "none")
  /\ UNCHANGED <<got, res>>
Rs == {<<0, 2>>, <<0, N>>, <<1, 3>>, <<2, 2>>, <<N - 2, N>>, <<N - 1, N + 1>>, <<N + 1, N + 2>>}
Internal == Acquire \/ \E i \in Ids : Complete(i)
Env == \/ \E i \in Ids, r \in Rs : DoCall(i, r[1], r[2])
       \/ \E i \in Ids : SeekDone(i) \/ ReadDone(i, TRUE) \/ ReadDone(i, FALSE) \/ Fail(i) \/ Cancel(i)
Next == Internal \/ ((Record => ~ENABLED Internal) /\ Env)
Done == \A i \in Ids : calls[i].s \in {"done", "gone"}
Out == ~(Record /\ Done) \/ PrintT(ToJson([sched |-> hist]))
Progress == Internal \/ \E i \in Ids : SeekDone(i) \/ ReadDone(i, FALSE)
Spec == Init /\ [][Next]_vars /\ WF_vars(Progress)

Exact == \A i \in Ids : calls[i].s = "done" =>
  IF res[i][1] = "ok" THEN OkAllowed(Data, calls[i], res[i][2]) ELSE ErrAllowed(Data, calls[i])
Reliable == \A i \in Ids : (calls[i].s = "done" /\ calls[i].a = "none" /\ InFile(N, calls[i])) =>
  res[i] = <<"ok", Want(Data, calls[i])>>
Returns == \A i \in Ids : (calls[i].s = "wait") ~> (calls[i].s # "wait")
=============================================================================
