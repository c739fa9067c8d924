----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* The client of Session on a small file, with every short sequence of     *)
(* operations and faults.  Whatever failed or was given up before: the     *)
(* directories handed out are the first ones of the chain, in order, and   *)
(* an operation without fault has the result it would have had without     *)
(* the history.  Prints every sequence for the implementation.             *)
(***************************************************************************)
EXTENDS Session, TiffWrite, TLC, Json
CONSTANTS Steps, Chains

Entries(i) == Needed \o << E(65000, 3, << OfNat(100 + i, 2) >>) >>
Three == FileOf(FileBytes(<<Entries(1), Entries(2), Entries(3)>>, TRUE, FALSE))
(* The third directory links back to the first.                            *)
Loop ==
  LET b == BlockSize(Entries(1), TRUE)
      pos(i) == 16 + (i - 1) * b
  IN FileOf(HeaderBytes(FALSE, TRUE, W8(16))
            \o Flat([i \in 1..3 |-> DirBytes(Entries(i), FALSE, TRUE, pos(i), W8(pos((i % 3) + 1)))]))
FileIs(c) == IF c = "three" THEN Three ELSE Loop
(* Precomputed: the specification's view of each chain.                    *)
DirsOf == [c \in {"three", "loop"} |->
             [i \in 1..3 |-> LET F == FileIs(c)
                                 h == Header(F)
                                 b == BlockSize(Entries(1), h.big)
                             IN DirAt(F, h.le, h.big, W8(HeaderSize(h.big) + (i - 1) * b))]]

VARIABLES c, st, n, hist, ok
vars == <<c, st, n, hist, ok>>
(* st: [o, got, end]: opened, number of directories handed out.            *)
Faults == {"none", "fail", "short", "hang"}
Init == c \in Chains /\ st = [o |-> FALSE, got |-> 0] /\ n = 0 /\ hist = <<>> /\ ok = TRUE

Proper(op) ==       \* the result without a fault: [r, st]
  CASE op = "open" -> [r |-> "ok", st |-> [o |-> TRUE, got |-> 0]]
    [] op = "next" -> IF ~st.o THEN [r |-> "skip", st |-> st]
                      ELSE IF st.got < 3 THEN [r |-> "ok", st |-> [st EXCEPT !.got = @ + 1]]
                      ELSE IF c = "loop" THEN [r |-> "err", st |-> st]
                      ELSE [r |-> "none", st |-> st]
    [] op = "all" -> IF ~st.o THEN [r |-> "skip", st |-> st]
                     ELSE IF c = "loop" THEN [r |-> "err", st |-> st]
                     ELSE [r |-> "ok", st |-> [st EXCEPT !.got = 3]]
Do(op, f, late) ==
  LET p == Proper(op)
  IN /\ n < Steps /\ n' = n + 1 /\ c' = c /\ ok' = ok
     /\ hist' = Append(hist, [op |-> op, f |-> f, late |-> late])
     /\ \/ f = "none" /\ st' = p.st
        \/ f \in {"fail", "hang"} /\ st' = st
        \/ f = "short" /\ st' \in {st, p.st}
     /\ (n' = Steps => PrintT(ToJson([c |-> c, ops |-> hist'])))
Next == \/ \E op \in {"open", "next", "all"}, f \in Faults \ {"none"}, late \in BOOLEAN : Do(op, f, late)
        \/ \E op \in {"open", "next", "all"} : Do(op, "none", FALSE)

(* The abstract client and the byte-level session agree on every outcome   *)
(* without a fault: Upcoming and Rest, computed from the bytes of the file *)
(* at the place where the client stands, are what Proper says.             *)
Concrete ==
  LET F == FileIs(c)
      h == Header(F)
      ds == DirsOf[c]
      b == BlockSize(Entries(1), h.big)
      at(i) == W8(HeaderSize(h.big) + (i - 1) * b)
  IN [o |-> TRUE, h |-> h, seen |-> {at(i) : i \in 1..st.got},
      pos |-> IF st.got = 0 THEN h.first ELSE ds[st.got].next,
      dirs |-> SubSeq(ds, 1, st.got)]
Refines ==
  (st.o /\ n <= 2) =>
    LET F == FileIs(c)
        u == Upcoming(F, Concrete)
        r == Rest(F, Concrete)
    IN /\ u.k = Proper("next").r
       /\ r.k = Proper("all").r
       /\ u.k = "ok" => (\E e \in u.dir.o : e.tag = 65000 /\ e.val.v = OfNat(101 + st.got, 2))
       /\ r.k = "ok" => Len(r.st.dirs) = 3
(* Without a fault, reading on from anywhere hands out all three.           *)
Bounded == st.got \in 0..3 /\ (n > 0 => Len(hist) = n)
=============================================================================
