------------------------------ MODULE BfsTrace ------------------------------
(* Conformance of breadth-first search: the parents returned by every        *)
(* variant form a shortest-path tree; the verifier accepts exactly those.    *)
EXTENDS TraceUtil, Paths
Start(t) == [A |-> Succ(t.rows)]
Parents(p) == [v \in 0..(Len(p) - 1) |-> p[v + 1]]
Judge(A, L, r, p) == IF Len(p) # Cardinality(DOMAIN A) THEN "number of parents" ELSE TreeWhy(A, L, r, Parents(p))
Why(t, s, ev) ==
  LET L == Levels(s.A, ev.root) IN
  CASE ev.k = "bfs" ->
         LET bad == {j \in 1..Len(ev.res) : Judge(s.A, L, ev.root, ev.res[j].p) # ""} IN
         IF bad = {} THEN "" ELSE LET j == SetMin(bad) IN ev.res[j].k \o ": " \o Judge(s.A, L, ev.root, ev.res[j].p)
    [] ev.k = "verify" -> IF ev.ok = (Judge(s.A, L, ev.root, ev.p) = "") THEN "" ELSE "the verifier accepts exactly the valid parents"
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
