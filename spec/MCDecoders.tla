----------------------------- MODULE MCDecoders -----------------------------
(***************************************************************************)
(* Building a registry and decoding one tile with it, step by step: the    *)
(* registry is a map that every registration overwrites; the tile's pieces *)
(* are handed to the decoder found for its method one by one.  The outcome *)
(* is the one Decoders.tla describes.  Prints every complete behaviour.    *)
(***************************************************************************)
EXTENDS Decoders, FiniteSets, TLC, Json
CONSTANTS Methods, MaxAdds, MaxPieces

VARIABLES base, adds, map, pc, m, n, k, calls, answers, result
vars == <<base, adds, map, pc, m, n, k, calls, answers, result>>
Init ==
  /\ base \in {"default", "empty"}
  /\ adds = <<>> /\ map = [x \in Methods |-> IF base = "default" /\ x \in BuiltIn THEN "builtin" ELSE "nothing"]
  /\ pc = "build" /\ m = 0 /\ n = 0 /\ k = 0 /\ calls = <<>> /\ answers = <<>> /\ result = "none"
Register(x) ==
  /\ pc = "build" /\ Len(adds) < MaxAdds
  /\ adds' = Append(adds, x)
  /\ map' = [map EXCEPT ![x] = ToString(Len(adds) + 1)]
  /\ UNCHANGED <<base, pc, m, n, k, calls, answers, result>>
Start(x, p) ==
  /\ pc = "build"
  /\ m' = x /\ n' = p
  /\ IF map[x] = "nothing" THEN pc' = "done" /\ result' = "err"
     ELSE IF map[x] = "builtin" THEN pc' = "done" /\ result' = "ok"     \* well-formed data
     ELSE pc' = "decode" /\ result' = "none"
  /\ UNCHANGED <<base, adds, map, k, calls, answers>>
Call(a) ==
  /\ pc = "decode" /\ k < n
  /\ k' = k + 1
  /\ calls' = Append(calls, <<map[m], k + 1>>)
  /\ answers' = Append(answers, a)
  /\ IF a = "err" THEN pc' = "done" /\ result' = "err"
     ELSE IF k + 1 = n THEN pc' = "done" /\ result' = "ok"
     ELSE UNCHANGED <<pc, result>>
  /\ UNCHANGED <<base, adds, map, m, n>>
Next == /\ \/ \E x \in Methods : Register(x)
           \/ \E x \in Methods, p \in 1..MaxPieces : Start(x, p)
           \/ \E a \in {"ok", "err"} : Call(a)
        /\ (pc' = "done") => PrintT(ToJson([base |-> base, adds |-> adds', m |-> m', n |-> n', ans |-> answers',
                                            r |-> result']))
Spec == Init /\ [][Next]_vars /\ WF_vars(\E a \in {"ok", "err"} : Call(a))

Reg == [base |-> base, add |-> [i \in 1..Len(adds) |-> [m |-> adds[i], id |-> i, echo |-> 0, outs |-> <<>>]]]
AsTold == \A x \in Methods :
            LET c == Chosen(Reg, x)
            IN IF c = "user" THEN map[x] = ToString(AddedFor(Reg, x)) ELSE map[x] = c
CalledInOrder ==
  /\ \A i \in 1..Len(calls) : calls[i] = <<map[m], i>>
  /\ Len(calls) <= n
  /\ \A i \in 1..Len(answers) : answers[i] = "err" => i = Len(answers)
Outcome ==
  pc = "done" =>
    LET as == [i \in 1..n |-> [r |-> IF i <= Len(answers) THEN answers[i] ELSE "ok"]]
    IN CASE Chosen(Reg, m) = "nothing" -> result = "err" /\ calls = <<>>
         [] Chosen(Reg, m) = "builtin" -> calls = <<>>
         [] OTHER -> Len(calls) = CallCount(as) /\ (result = "err") = (FirstErr(as) # 0)
Ends == (pc = "decode") ~> (pc = "done")
=============================================================================
