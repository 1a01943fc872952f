------------------------------ MODULE Triangles ------------------------------
(* Triangles of a graph stored with every edge in one direction, from the    *)
(* lower to the higher vertex (upper) or the other way round: S[v] is the    *)
(* set of stored neighbors of v.                                             *)
EXTENDS Paths, FiniteSetsExt
(* by definition: pairwise adjacent triples *)
Adjacent(S, u, v) == v \in S[u] \/ u \in S[v]
Triples(S) == {T \in SUBSET DOMAIN S : Cardinality(T) = 3 /\ \A u, v \in T : u # v => Adjacent(S, u, v)}
SumOver(X, f(_)) == MapThenSumSet(f, X)
(* common stored neighbors over the stored edges *)
Count(S) == SumOver(DOMAIN S, LAMBDA u : SumOver(S[u], LAMBDA v : Cardinality(S[u] \cap S[v])))
=============================================================================
