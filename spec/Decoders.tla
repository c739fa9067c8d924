------------------------------ MODULE Decoders ------------------------------
(***************************************************************************)
(* The decoder registry: which decoder a compression method is decoded by. *)
(*   reg = [base, add]: a registry with the built-in decoders ("default")  *)
(*   or none, to which decoders were added: add[i] = [m, id, echo, outs]   *)
(***************************************************************************)
EXTENDS Integers, Sequences
BuiltIn == {1, 5, 7, 8, 32946, 34712, 34887, 34925, 50000, 50001}

(* The user's decoder for a method: the one added last; 0 if there is none. *)
AddedFor(reg, m) ==
  LET s == {i \in 1..Len(reg.add) : reg.add[i].m = m}
  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
(* What decodes method m: "user", "builtin" or "nothing".                  *)
Chosen(reg, m) == IF AddedFor(reg, m) # 0 THEN "user"
                  ELSE IF reg.base = "default" /\ m \in BuiltIn THEN "builtin" ELSE "nothing"

(* What a user's decoder answers on its k-th call.                         *)
Answer(a, pieces, k) == IF a.echo = 1 THEN [r |-> "ok", b |-> pieces[k]]
                        ELSE IF k <= Len(a.outs) THEN a.outs[k] ELSE [r |-> "err", b |-> <<>>]
FirstErr(as) == LET s == {i \in 1..Len(as) : as[i].r = "err"}
                IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
(* How often it is called: once per piece, up to the first error.          *)
CallCount(as) == IF FirstErr(as) = 0 THEN Len(as) ELSE FirstErr(as)
=============================================================================
