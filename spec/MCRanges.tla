------------------------------ MODULE MCRanges ------------------------------
(***************************************************************************)
(* A client that serves a list of ranges by one HTTP request after the     *)
(* other, against a server that may or may not do ranges and may fail.     *)
(* Prints every behaviour.                                                 *)
(***************************************************************************)
EXTENDS RangeReq, TLC, Json
CONSTANTS N, MaxRanges, Record
VARIABLES rs, k, out, modes, bad, res
vars == <<rs, k, out, modes, bad, res>>
Data == [i \in 1..N |-> i]
AllRanges == {<<lo, hi>> : lo \in 0..(N + 1), hi \in 0..(N + 2)}
Valid == {r \in AllRanges : r[1] <= r[2]}
Init == rs \in UNION {[1..m -> Valid] : m \in 0..MaxRanges} /\ k = 1 /\ out = <<>> /\ modes = <<>> /\ bad = 0 /\ res = "none"
Skip == /\ res = "none" /\ k <= Len(rs) /\ EmptyRange(rs[k])
        /\ out' = Append(out, <<>>) /\ k' = k + 1 /\ UNCHANGED <<rs, modes, bad, res>>
Ask(mode) ==
  /\ res = "none" /\ k <= Len(rs) /\ ~EmptyRange(rs[k])
  /\ modes' = Append(modes, mode)
  /\ LET a == Serve(Data, mode, HeaderOf(rs[k]))
         n == Len(a.b)
     IN /\ bad' = bad + (IF mode = "bad" THEN 1 ELSE 0)
        /\ IF a.st >= 400 THEN res' = "err" /\ UNCHANGED <<out, k>>
           ELSE /\ out' = Append(out, IF a.st = 206 THEN a.b
                                      ELSE SubSeq(a.b, LeastOf(rs[k][1], n) + 1, LeastOf(rs[k][2], n)))
                /\ k' = k + 1 /\ UNCHANGED res
  /\ UNCHANGED rs
Finish == res = "none" /\ k > Len(rs) /\ res' = "ok" /\ UNCHANGED <<rs, k, out, modes, bad>>
Next == Skip \/ Finish \/ \E m \in {"206", "200", "bad"} : Ask(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Allowed == /\ res = "ok" => OkAllowed(Data, rs, bad, out)
           /\ res = "err" => ErrAllowed(Data, rs, bad)
Ends == <>(res # "none")
Out == ~(Record /\ res # "none") \/ PrintT(ToJson([rs |-> rs, modes |-> modes]))
=============================================================================
