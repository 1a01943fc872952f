------------------------------- MODULE CcTrace -------------------------------
(* Conformance of the connected-component algorithms and their verifier.     *)
EXTENDS TraceUtil, Components
Start(t) == LET A == Succ(t.rows) IN [A |-> A, S |-> Sym(A)]
Fun(l) == [v \in 0..(Len(l) - 1) |-> l[v + 1]]
Judge(s, l) == IF Len(l) # Cardinality(DOMAIN s.A) THEN "number of labels" ELSE LabelWhy(s.A, s.S, Fun(l))
Why(t, s, ev) ==
  CASE ev.k = "cc" ->
         LET bad == {j \in 1..Len(ev.res) : Judge(s, ev.res[j].l) # ""} IN
         IF bad = {} THEN "" ELSE LET j == SetMin(bad) IN ev.res[j].k \o ": " \o Judge(s, ev.res[j].l)
    [] ev.k = "verify" -> IF ev.ok = IsPartition(s.A, s.S, Fun(ev.l)) THEN "" ELSE "the verifier accepts exactly the correct labels"
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
