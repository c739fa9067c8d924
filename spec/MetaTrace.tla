----------------------------- MODULE MetaTrace -----------------------------
(* Judges recorded metadata reads: every observation has to be one that   *)
(* TiffFile allows for the bytes of the file.                              *)
EXTENDS TiffFile, Judging
Agree(o) ==
  /\ ReportAgrees(o.file, o)
  /\ AllAgrees(o.file, o.all)
  /\ o.touch = "ok"
  /\ LowAgrees(o.file, o.low)

Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
