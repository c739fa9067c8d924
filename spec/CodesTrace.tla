----------------------------- MODULE CodesTrace -----------------------------
(* Judges the recorded names of all 65536 codes of each enumeration.       *)
EXTENDS Codes, Judging
Judge == CodesAgree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
