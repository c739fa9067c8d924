---------------------------- MODULE DecodeTrace ----------------------------
(***************************************************************************)
(* Judges recorded decodes.  An observation holds the file, the decoder    *)
(* registry and the decoded tiles o.ts: position, outcome, the calls the   *)
(* user's decoders saw, and where known the uncompressed pieces.           *)
(***************************************************************************)
EXTENDS DecodeRules, Judging

Agree(o) ==
  LET ch == TLCEval(Chain(o.file))
      h == TLCEval(Header(o.file))
  IN IF ch.k # "ok" THEN o.r \in {"ok", "err"}
     ELSE /\ o.r = "ok"
          /\ \A i \in 1..Len(o.ts) : TileAgrees(o, h, ch.ds[1], o.ts[i])
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
