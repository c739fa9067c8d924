---------------------------- MODULE LayoutTrace ----------------------------
(***************************************************************************)
(* Judges groups of files that describe the same image: each is read as    *)
(* its bytes denote, and all give the same fields (except for where the    *)
(* data lie and how many stored bytes they are), geographic keys and       *)
(* pixels.                                                                 *)
(***************************************************************************)
EXTENDS DecodeRules, Judging

Each(v) ==
  LET ch == TLCEval(Chain(v.file))
      h == TLCEval(Header(v.file))
  IN IF ch.k # "ok" THEN v.r = "err" \/ (ch.k = "any" /\ v.r = "ok")
     ELSE
     /\ v.r = "ok" /\ Len(v.ds) = Len(ch.ds)
     /\ \A i \in 1..Len(v.ds) : DirAgrees(ch.ds[i], v.ds[i])
     /\ \A i \in 1..Len(v.ts) : \A k \in 1..Len(v.ts[i]) : TileAgrees(v, h, ch.ds[i], v.ts[i][k])

Elsewhere == {"tile_offsets", "strip_offsets", "tile_byte_counts", "strip_byte_counts"}
SameDir(a, b) == /\ \A nm \in FieldNames \ Elsewhere : a.f[nm] = b.f[nm]
                 /\ \A nm \in Elsewhere : a.f[nm].p = b.f[nm].p /\ Len(a.f[nm].v) = Len(b.f[nm].v)
                 /\ a.o = b.o /\ a.g = b.g
SameTile(s, t) == s.xy = t.xy /\ s.f = t.f /\ s.d = t.d
Same(u, v) ==
  /\ u.r = v.r /\ Len(u.ds) = Len(v.ds) /\ Len(u.ts) = Len(v.ts)
  /\ \A i \in 1..Len(u.ds) : SameDir(u.ds[i], v.ds[i])
  /\ \A i \in 1..Len(u.ts) : Len(u.ts[i]) = Len(v.ts[i])
       /\ \A k \in 1..Len(u.ts[i]) : SameTile(u.ts[i][k], v.ts[i][k])

Agree(o) == /\ \A i \in 1..Len(o.vs) : Each(o.vs[i])
            /\ \A i \in 2..Len(o.vs) : Same(o.vs[1], o.vs[i])
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
