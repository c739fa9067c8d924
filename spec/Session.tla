------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A client working on one file: opening it, reading directories one by    *)
(* one or all at once, asking for tile ranges and fetching tiles, while    *)
(* requests to the source fail, come back short, or are never answered     *)
(* (then the client gives up on the operation).                            *)
(*                                                                         *)
(* State: [o, h, pos, seen, dirs]: opened?, header, offset of the next     *)
(* directory, offsets already read, the directories handed out.            *)
(***************************************************************************)
EXTENDS TileMap

Start == [o |-> FALSE, h |-> HeaderErr, pos |-> W8(0), seen |-> {}, dirs |-> <<>>]
Opened(h) == [o |-> TRUE, h |-> h, pos |-> h.first, seen |-> {}, dirs |-> <<>>]

(* Which outcomes are possible: without fault the proper one; a failed     *)
(* request is an error; a short one is an error unless the missing bytes   *)
(* were not needed; after a request without answer there is no outcome.    *)
Outcomes(hit, proper) ==
  CASE hit = "none" -> {proper}
    [] hit = "fail" -> {"err"}
    [] hit = "short" -> {proper, "err"}
    [] hit = "hang" -> {"cancel"}
Undone(a) == a.r \in {"err", "cancel"}

(* One step: the set of states after action a was observed ({}: the        *)
(* observation is not allowed).                                            *)
OpenStep(F, st, a) ==
  LET h == Header(F)
  IN IF a.r \notin Outcomes(a.hit, IF h.k = "ok" THEN "ok" ELSE "err") THEN {}
     ELSE IF Undone(a) THEN {st}
     ELSE IF a.le = h.le /\ a.big = h.big /\ NextIs(a.next, h.first) THEN {Opened(h)}
     ELSE {}

(* The next directory: [k, next, dir], k as for DirAt or "none" / "err".   *)
Upcoming(F, st) ==
  IF IsZero(st.pos) THEN [k |-> "none", dir |-> DirErr, next |-> W8(0)]
  ELSE IF st.pos \in st.seen THEN BadDir
  ELSE DirAt(F, st.h.le, st.h.big, st.pos)
Took(st, d) == [st EXCEPT !.pos = d.next, !.seen = @ \cup {st.pos}, !.dirs = Append(@, d)]

NextStep(F, st, a) ==
  LET d == Upcoming(F, st)
  IN CASE d.k = "none" -> IF a.r \in Outcomes(a.hit, "none") /\ a.next.p = 0 THEN {st} ELSE {}
       [] d.k = "err" -> IF a.r \in Outcomes(a.hit, "err") /\ NextIs(a.next, st.pos) THEN {st} ELSE {}
       [] d.k = "ok" -> IF a.r \notin Outcomes(a.hit, "ok") THEN {}
                        ELSE IF Undone(a) THEN (IF NextIs(a.next, st.pos) THEN {st} ELSE {})
                        ELSE IF NextIs(a.next, d.next) /\ DirAgrees(d.dir, a.d) THEN {Took(st, d)}
                        ELSE {}
       [] d.k = "any" -> IF Undone(a) THEN {st} ELSE IF a.r = "ok" THEN {Took(st, d)} ELSE {}

(* All remaining directories: [k, st].                                     *)
RECURSIVE Rest(_, _)
Rest(F, st) ==
  LET d == Upcoming(F, st)
  IN IF d.k = "none" THEN [k |-> "ok", st |-> st]
     ELSE IF d.k \in {"err", "any"} THEN [k |-> d.k, st |-> st]
     ELSE Rest(F, Took(st, d))

AllStep(F, st, a) ==
  LET x == Rest(F, st)
      n == Len(x.st.dirs) - Len(st.dirs)
  IN IF x.k = "any" THEN {[st EXCEPT !.o = FALSE]}       \* not followed further
     ELSE IF a.r \notin Outcomes(a.hit, x.k) THEN {}
     ELSE IF Undone(a) THEN (IF NextIs(a.next, st.pos) THEN {st} ELSE {})
     ELSE IF /\ a.next.p = 0 /\ Len(a.ds) = n
             /\ \A i \in 1..n : DirAgrees(x.st.dirs[Len(st.dirs) + i].dir, a.ds[i])
     THEN {x.st} ELSE {}

(* Tile operations on the a.d-th directory handed out.                     *)
Field(d, nm) == d.dir.f[nm]
GridStep(d, a) ==
  LET g == Grid(d.dir.f)
  IN \/ g.k = "any" /\ a.r \in {"ok", "none"}
     \/ g.k = "none" /\ a.r = "none"
     \/ g.k = "ok" /\ a.r = "ok" /\ a.nx = g.nx /\ a.ny = g.ny
RangesStep(d, a) ==
  LET x == TLCEval(RangesOf(d.dir.f, a.xy))
      g == TLCEval(Grid(d.dir.f))
      one == TLCEval([i \in 1..Len(a.xy) |-> RangesIn(d.dir.f, g, a.xy[i][1], a.xy[i][2])])
  IN /\ \/ x.k = "none" /\ a.r = "none"
        \/ x.k = "ok" /\ a.r = "ok" /\ a.ts = x.ts
     /\ Len(a.one) = Len(one)
     /\ \A i \in 1..Len(one) : a.one[i].r = one[i].k /\ (one[i].k = "ok" => a.one[i].rs = one[i].rs)

(* The bytes of the ranges rs: "ok" with the pieces, "err", or "any" where *)
(* an empty range lies outside of the file.                                *)
PieceOf(F, r) ==
  IF r[1] = r[2] THEN [k |-> IF Lt(F.len, r[1]) THEN "any" ELSE "ok", b |-> <<>>]
  ELSE LET n == Minus(r[2], r[1])
           g == Get(F, r[1], ToNat(n))
       IN IF IsNat(n) /\ ToNat(n) <= 1000000 /\ g.ok THEN [k |-> "ok", b |-> g.b]
          ELSE [k |-> "err", b |-> <<>>]
TilesStep(F, d, a) ==
  LET x == TLCEval(RangesOf(d.dir.f, a.xy))
      ps == [i \in 1..Len(x.ts) |-> [b \in 1..Len(x.ts[i]) |-> PieceOf(F, x.ts[i][b])]]
      has(k) == \E i \in 1..Len(ps) : \E b \in 1..Len(ps[i]) : ps[i][b].k = k
      proper == IF x.k = "none" \/ has("err") THEN "err" ELSE "ok"
      tileOk(i) ==
        LET t == a.ts[i]
        IN /\ t.x = a.xy[i][1] /\ t.y = a.xy[i][2]
           /\ t.planar = Planar(d.dir.f)
           /\ t.p = [b \in 1..Len(ps[i]) |-> ps[i][b].b]
           /\ FieldAgrees(Field(d, "compression"), t.c)
           /\ FieldAgrees(Field(d, "photometric_interpretation"), t.ph)
           /\ FieldAgrees(Field(d, "jpeg_tables"), t.jt)
  IN IF a.xy = <<>> THEN a.r = "err" \/ (a.r = "ok" /\ a.ts = <<>>)
     ELSE /\ \/ a.r \in Outcomes(a.hit, proper)
             \/ proper = "ok" /\ has("any") /\ a.r = "err"
          /\ a.r = "ok" => Len(a.ts) = Len(a.xy) /\ \A i \in 1..Len(a.xy) : tileOk(i)

(* The smallest non-zero data offset of the directories handed out.        *)
DataOffsets(st) ==
  UNION {UNION {{w \in {v[j] : j \in 1..Len(v)} : ~IsZero(w)} :
                 v \in {st.dirs[i].dir.f[nm].v : nm \in {nn \in {"tile_offsets", "strip_offsets"} :
                                                     IsSet(st.dirs[i].dir.f, nn)}}} :
         i \in 1..Len(st.dirs)}
HsizeStep(st, a) ==
  LET s == DataOffsets(st)
  IN IF s = {} THEN TRUE
     ELSE a.r = "ok" /\ a.w \in s /\ \A w \in s : Le(a.w, w)

Step(F, st, a) ==
  CASE a.op = "open" -> OpenStep(F, st, a)
    [] a.op # "open" /\ a.r = "skip" -> IF st.o /\ (a.op \in {"next", "all", "hsize"} \/ a.d <= Len(st.dirs))
                                       THEN {} ELSE {st}
    [] a.op = "next" /\ a.r # "skip" -> IF st.o THEN NextStep(F, st, a) ELSE {}
    [] a.op = "all" /\ a.r # "skip" -> IF st.o THEN AllStep(F, st, a) ELSE {}
    [] a.op = "hsize" /\ a.r # "skip" -> IF HsizeStep(st, a) THEN {st} ELSE {}
    [] a.op \in {"count", "ranges", "tiles"} /\ a.r # "skip" ->
         IF ~st.o \/ a.d > Len(st.dirs) THEN {}
         ELSE LET d == st.dirs[a.d]
              IN IF d.k = "any" THEN {st}
                 ELSE IF CASE a.op = "count" -> GridStep(d, a)
                           [] a.op = "ranges" -> RangesStep(d, a)
                           [] a.op = "tiles" -> TilesStep(F, d, a)
                      THEN {st} ELSE {}

(* A whole session.                                                        *)
RECURSIVE SessionFrom(_, _, _, _)
SessionFrom(F, st, as, j) ==
  IF j > Len(as) THEN TRUE
  ELSE IF st.o /\ IsZero(st.h.first) THEN TRUE           \* unspecified
  ELSE \E s \in Step(F, st, as[j]) :
         IF st.o /\ ~s.o THEN TRUE ELSE SessionFrom(F, s, as, j + 1)
SessionAgrees(F, as) == SessionFrom(F, Start, as, 1)
=============================================================================
