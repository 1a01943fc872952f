------------------------------ MODULE SsspTrace ------------------------------
(* Conformance of the shortest-path algorithms.  Distances are in units of   *)
(* the smallest weight.                                                      *)
EXTENDS TraceUtil, Weighted
Start(t) == [E |-> WEdges(t.rows), V |-> 0..(Len(t.rows) - 1)]
Judge(s, r, d) == IF Len(d) # Cardinality(s.V) THEN "number of distances" ELSE DistWhy(s.E, s.V, r, [v \in s.V |-> d[v + 1]])
Why(t, s, ev) ==
  LET bad == {j \in 1..Len(ev.res) : Judge(s, ev.root, ev.res[j].d) # ""} IN
  IF bad = {} THEN "" ELSE LET j == SetMin(bad) IN ev.res[j].k \o ": " \o Judge(s, ev.root, ev.res[j].d)
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
