---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions, with the requests the source saw.             *)
EXTENDS Session, Judging

(* The last byte (exclusive) of the metadata: directories and out-of-line  *)
(* values of the chain.                                                     *)
MaxW(a, b) == IF Lt(a, b) THEN b ELSE a
EntryEnd(F, le, big, e) ==
  LET fs == FieldSize(big)
      ty == ToNat(Msb(Sub(e, 3, 2), le))
      count == Ext(Msb(Sub(e, 5, fs), le), 8)
      size == Mul(count, TypeSize(ty)).w
  IN IF Le(size, W8(fs)) THEN W8(0) ELSE Add(Ext(Msb(Sub(e, 5 + fs, fs), le), 8), size)
RECURSIVE MaxOf(_, _)
MaxOf(ws, i) == IF i > Len(ws) THEN W8(0) ELSE MaxW(ws[i], MaxOf(ws, i + 1))
RECURSIVE MetaEndFrom(_, _, _)
MetaEndFrom(F, h, pos) ==
  IF IsZero(pos) THEN W8(0)
  ELSE LET cs == CountSize(h.big)
           es == EntrySize(h.big)
           n == ToNat(Msb(Get(F, pos, cs).b, h.le))
           reg == Get(F, AddNat(pos, cs), n * es + FieldSize(h.big)).b
           ends == [i \in 1..n |-> EntryEnd(F, h.le, h.big, Sub(reg, (i - 1) * es + 1, es))]
       IN MaxW(AddNat(pos, cs + Len(reg)),
               MaxW(MaxOf(ends, 1), MetaEndFrom(F, h, DirAt(F, h.le, h.big, pos).next)))
MetaEnd(F) == MetaEndFrom(F, Header(F), Header(F).first)

(* Reopening through a cache that starts with the reported size costs one  *)
(* request.                                                                 *)
OneRequest(o) ==
  LET s == {j \in 1..Len(o.ops) : o.ops[j].op = "hsize" /\ o.ops[j].r = "ok"}
  IN o.again.p = 1 =>
       /\ SessionAgrees(o.file, o.again.ops)
       /\ Chain(o.file).k = "ok" =>
          \A j \in s : Le(MetaEnd(o.file), o.ops[j].w) =>
             /\ Len(o.again.reqs) = 1
             /\ o.again.reqs[1] = <<W8(0), o.ops[j].w>>

Agree(o) == SessionAgrees(o.file, o.ops) /\ OneRequest(o)
Judge == Agree(Obs[nth]) \/ PrintT(<<"MISMATCH", nth>>)
=============================================================================
