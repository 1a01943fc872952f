----------------------------- MODULE AtomicTrace -----------------------------
(* Conformance of the atomic bit vector and the atomic wrappers.  The state  *)
(* is the set of bits that are set, or the value of the variable.            *)
EXTENDS TraceUtil, Atomic
Start(t) == IF t.kind = "vector" THEN {} ELSE 0
(* what one operation on a bit returns: -1 for clear, else the position of   *)
(* the one bit of the returned word                                          *)
Says(s, ev, i, r) == r = (IF i \in s THEN i % ev.w ELSE -1)
Vector(s, ev) ==
  CASE ev.k = "set" \/ ev.k = "get" -> IF Says(s, ev, ev.i, ev.r) THEN "" ELSE "returned bit"
    [] ev.k = "iter" -> IF StrictAsc(ev.l) /\ Rng(ev.l) = s THEN "" ELSE "iterated positions"
    [] ev.k = "pieces" -> IF LET f == FlattenSeq(ev.l) IN StrictAsc(f) /\ Rng(f) = s THEN "" ELSE "positions iterated in pieces"
    [] ev.k = "visit" -> IF Distinct(ev.l) /\ Rng(ev.l) = s THEN "" ELSE "positions visited in parallel"
    [] ev.k = "content" -> IF Len(ev.l) = ev.n /\ \A i \in 0..(ev.n - 1) : Says(s, ev, i, ev.l[i + 1]) THEN "" ELSE "content"
    [] OTHER -> ""
Why(t, s, ev) ==
  CASE t.kind = "vector" -> Vector(s, ev)
    [] ev.k = "op" -> IF Right(ev, s) THEN "" ELSE ev.op \o ": result"
    [] ev.k = "hist" -> IF Linearizable(ev.h, ev.v, ev.final) THEN "" ELSE "history is not linearizable"
    [] ev.k = "bits" -> IF \A j \in 1..Len(ev.h) : BitOk(ev.h[j], ev.final[j]) THEN "" ELSE "history of a bit is not linearizable"
    [] ev.k = "chain" -> IF ChainOk(ev.h, ev.v, ev.final) THEN "" ELSE "lost or doubled update"
    [] ev.k = "stress" -> CASE \E j \in 1..Len(ev.b) : ev.b[j][3] # (IF ev.b[j][1] = 0 THEN 0 ELSE 1) -> "a set was lost"
                            [] \E j \in 1..Len(ev.b) : ev.b[j][2] # (IF ev.b[j][1] = 0 THEN 0 ELSE 1) -> "not exactly one setter saw the bit clear"
                            [] ev.late # 0 -> "a get after a completed set saw the bit clear"
                            [] OTHER -> ""
    [] OTHER -> ""
Post(t, s, ev) ==
  CASE t.kind = "vector" -> (CASE ev.k = "set" -> s \cup {ev.i} [] ev.k = "clear" -> {} [] OTHER -> s)
    [] ev.k = "op" -> After(ev, s)
    [] OTHER -> s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
