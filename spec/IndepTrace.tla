----------------------------- MODULE IndepTrace -----------------------------
(* Conformance of independent-set and colouring algorithms.                  *)
EXTENDS TraceUtil, Independent, Graph
Start(t) == [u \in 0..(Len(t.rows) - 1) |-> {t.rows[u + 1][j][1] : j \in 1..Len(t.rows[u + 1])}]
SetWhy(S, I) ==
  CASE ~(I \subseteq DOMAIN S) -> "not a vertex"
    [] ~Independent(S, I) -> "two adjacent vertices in the set"
    [] ~Dominated(S, I) -> "another vertex could be added"
    [] OTHER -> ""
Why1(S, r) ==
  CASE r.k = "colours" -> IF Len(r.col) # Cardinality(DOMAIN S) THEN "number of colours" ELSE IF Proper(S, [v \in DOMAIN S |-> r.col[v + 1]]) THEN "" ELSE "adjacent vertices share a colour"
    [] r.k = "flags" -> IF Len(r.in) # Cardinality(DOMAIN S) THEN "number of flags" ELSE SetWhy(S, {v \in DOMAIN S : r.in[v + 1]})
    [] r.k = "list" -> IF ~Distinct(r.set) THEN "a vertex twice in the set" ELSE SetWhy(S, Rng(r.set))
Why(t, s, ev) == LET w == Why1(s, ev) IN IF w = "" THEN "" ELSE ev.f \o ": " \o w
Post(t, s, ev) == s
VARIABLES c, i, st
INSTANCE TraceBase WITH TStart <- Start, TWhy <- Why, TPost <- Post
=============================================================================
