----------------------------- MODULE Readahead -----------------------------
(***************************************************************************)
(* The readahead cache as its callers and its source see it.  Callers ask  *)
(* for ranges [lo, hi); the cache holds the first clen bytes of the source *)
(* and extends them by one source request at a time.                       *)
(*                                                                         *)
(* cf = [n, strict, init, num, den]: length of the source, whether the     *)
(* source refuses ranges past its end, initial size and growth factor      *)
(* num/den (num < 0: a factor larger than everything).                     *)
(*                                                                         *)
(* A state: [clen, fl, calls]                                              *)
(*   fl = [on, by, from, to]  the source request under way                 *)
(*   calls[i] = [s, lo, hi, a]  s: idle, wait, done, gone; a: how the      *)
(*     source answered this caller last: none, ok, short, fail, eof        *)
(* Events: call, req, ans, drop, ret, cancel.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Huge == 2000000000          \* sizes from here on are not distinguished
NoFetch == [on |-> FALSE, by |-> 0, from |-> 0, to |-> 0]
Start(k) == [clen |-> 0, fl |-> NoFetch,
             calls |-> [i \in 1..k |-> [s |-> "idle", lo |-> 0, hi |-> 0, a |-> "none"]]]

(* Sizes the readahead may have: the growth factor is a real number, so    *)
(* that the size is only determined up to rounding.                        *)
GrowSizes(cf, clen) ==
  IF clen = 0 THEN {cf.init}
  ELSE IF cf.num < 0 THEN {Huge}
  ELSE {(clen * cf.num) \div cf.den, (clen * cf.num + cf.den - 1) \div cf.den}
FetchSizes(cf, clen, hi) == {Min(Huge, Max(g, hi - clen)) : g \in GrowSizes(cf, clen)}

Cached(s, c) == c.hi <= s.clen
Call(s, i, lo, hi) ==
  IF s.calls[i].s # "idle" THEN {}
  ELSE {[s EXCEPT !.calls[i] = [s |-> "wait", lo |-> lo, hi |-> hi, a |-> "none"]]}

(* A source request: starts where the cached bytes end, on behalf of a     *)
(* caller whose range is not cached, with no other request under way.      *)
Req(cf, s, i, from, to) ==
  LET c == s.calls[i]
      size == Min(Huge, to - from)
  IN IF /\ c.s = "wait" /\ ~Cached(s, c) /\ ~s.fl.on /\ from = s.clen
        /\ IF c.a = "eof"                              \* the source has told where it ends
           THEN to <= cf.n /\ to >= Min(c.hi, cf.n)
           ELSE size \in FetchSizes(cf, s.clen, c.hi)
     THEN {[s EXCEPT !.fl = [on |-> TRUE, by |-> i, from |-> from, to |-> to]]} ELSE {}

(* The source answers: with k bytes, or an error.                          *)
Available(cf, s) == Max(0, Min(s.fl.to, cf.n) - s.fl.from)
PastEnd(cf, s) == s.fl.to > cf.n
Ans(cf, s, kind, k) ==
  IF ~s.fl.on THEN {}
  ELSE LET t == [s EXCEPT !.fl = NoFetch, !.calls[s.fl.by].a = kind]
       IN IF kind \in {"ok", "short"} THEN {[t EXCEPT !.clen = s.clen + k]} ELSE {t}

(* A request is abandoned with its caller.                                 *)
Drop(s) == IF s.fl.on /\ s.calls[s.fl.by].s = "gone" THEN {[s EXCEPT !.fl = NoFetch]} ELSE {}
Cancel(s, i) == IF s.calls[i].s = "wait" THEN {[s EXCEPT !.calls[i].s = "gone"]} ELSE {}

(* What a caller may be told.  Bytes b of the source data.                 *)
Whole(cf, data, c) == SubSeq(data, c.lo + 1, Min(c.hi, cf.n))
IsPrefixOf(b, w) == Len(b) <= Len(w) /\ b = SubSeq(w, 1, Len(b))
MayFail(cf, c) == \/ c.a \in {"fail", "short"}           \* its own fetch failed
                  \/ c.hi > cf.n                          \* asks for bytes that do not exist
OkResult(cf, data, c, b) ==
  LET w == Whole(cf, data, c)
  IN IF c.hi <= cf.n /\ c.a \notin {"short"} THEN b = w ELSE IsPrefixOf(b, w)
Ret(s, i) == IF s.calls[i].s = "wait" THEN {[s EXCEPT !.calls[i].s = "done"]} ELSE {}
=============================================================================
