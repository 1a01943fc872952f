--------------------------- MODULE UnionFindTrace ---------------------------
(* Conformance of the disjoint-set structures.                               *)
EXTENDS TraceUtil, UnionFind
Start(t) == Singletons(t.n)
Post(t, P, ev) == After(P, t.n, ev)
SetsOf(x) == {{b[j] : j \in 1..Len(b)} : b \in {x[k] : k \in 1..Len(x)}}
Why(t, P, ev) ==
  LET Q == Post(t, P, ev)  r == RepWhy(Q, t.n, ev.rep) IN
  CASE r # "" -> r
    [] ev.k = "find" /\ ev.ret # ev.rep[ev.u + 1] -> "find returns the representative"
    [] ev.k = "try" /\ ev.ret # (IF Same(P, ev.u, ev.v) THEN 0 ELSE 1) -> "a union reports whether it joined two sets"
    [] Has(ev, "count") /\ ev.count # Cardinality(Q) -> "number of sets"
    [] Has(ev, "sets") /\ (SetsOf(ev.sets) # Q \/ Len(ev.sets) # Cardinality(Q)) -> "list of sets"
    [] Has(ev, "sizes") /\ \E v \in 0..(t.n - 1) : ev.sizes[v + 1] # Cardinality(Block(Q, v)) -> "size of a set"
    [] Has(ev, "labels") /\ (\E u, v \in 0..(t.n - 1) : (ev.labels[u + 1] = ev.labels[v + 1]) # Same(Q, u, v)) -> "compact labels"
    [] Has(ev, "roots") /\ {ev.roots[j] : j \in 1..Len(ev.roots)} # {ev.rep[j] : j \in 1..t.n} -> "roots are the representatives"
    [] OTHER -> ""
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
