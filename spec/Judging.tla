------------------------------- MODULE Judging -------------------------------
(* Walks over the recorded observations (one JSON object per line of the   *)
(* file named by OBS), WIDTH at a time, and judges each by Agree.          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.OBS)
Lanes == LET w == atoi(IOEnv.WIDTH) IN IF w < Len(Obs) THEN w ELSE Len(Obs)
VARIABLE nth
Init == nth \in 1..Lanes
Next == nth + Lanes <= Len(Obs) /\ nth' = nth + Lanes
AllJudged == TLCGet("distinct") = Len(Obs)
=============================================================================
