------------------------------ MODULE MCFetch ------------------------------
(***************************************************************************)
(* Tile fetches running at the same time on one reader.  Each client needs *)
(* a number of pieces; the source answers outstanding requests of any      *)
(* client in any order, correctly, with an error, or with too few bytes;   *)
(* clients may be dropped.  Whatever the schedule: a client that was not   *)
(* dropped finishes, with exactly its own pieces if all of its requests    *)
(* were answered correctly and with an error otherwise.  Prints every      *)
(* schedule.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Needs,        \* number of pieces per client
          MaxFaults
N221 == <<2, 2, 1>>
N33 == <<3, 3>>
N222 == <<2, 2, 2>>
N43 == <<4, 3>>
Clients == 1..Len(Needs)
VARIABLES st,           \* per client: [s, got, res]
          faults, hist
vars == <<st, faults, hist>>
(* Piece k of client c is <<c, k>> at the source.                          *)
Init == /\ st = [c \in Clients |-> [s |-> "idle", got |-> <<>>, res |-> "none", hit |-> FALSE]]
        /\ faults = 0 /\ hist = <<>>
Log(a, c, f) == hist' = Append(hist, [a |-> a, c |-> c - 1, f |-> f])
Start(c) == /\ st[c].s = "idle"
            /\ st' = [st EXCEPT ![c].s = "wait"] /\ UNCHANGED faults /\ Log("start", c, "none")
Answer(c) == /\ st[c].s = "wait"
             /\ LET got == Append(st[c].got, <<c, Len(st[c].got) + 1>>)
                    full == Len(got) = Needs[c]
                IN st' = [st EXCEPT ![c].got = got, ![c].s = IF full THEN "done" ELSE "wait",
                                    ![c].res = IF full THEN "ok" ELSE "none"]
             /\ UNCHANGED faults /\ Log("answer", c, "none")
Fault(c, f) == /\ st[c].s = "wait" /\ faults < MaxFaults /\ faults' = faults + 1
               /\ st' = [st EXCEPT ![c].s = "done", ![c].res = "err", ![c].got = <<>>, ![c].hit = TRUE]
               /\ Log("answer", c, f)
Drop(c) == /\ st[c].s = "wait" /\ faults < MaxFaults /\ faults' = faults + 1
           /\ st' = [st EXCEPT ![c].s = "done", ![c].res = "cancel", ![c].got = <<>>, ![c].hit = TRUE]
           /\ Log("drop", c, "none")
Finished == \A c \in Clients : st[c].s = "done"
Next == \E c \in Clients : Start(c) \/ Answer(c) \/ Fault(c, "fail") \/ Fault(c, "short") \/ Drop(c)
Out == ~Finished \/ PrintT(ToJson([sched |-> hist]))
Spec == Init /\ [][Next]_vars

OwnPieces == \A c \in Clients :
  /\ st[c].res = "ok" => ~st[c].hit /\ st[c].got = [k \in 1..Needs[c] |-> <<c, k>>]
  /\ st[c].s = "done" => (st[c].res = "ok") = ~st[c].hit
  /\ st[c].res # "ok" => \A i \in 1..Len(st[c].got) : st[c].got[i][1] = c
CanFinish == Finished \/ ENABLED Next
=============================================================================
