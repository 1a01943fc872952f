------------------------------- MODULE KCore -------------------------------
(* The k-core of a simple graph S (vertex -> set of neighbors).              *)
EXTENDS Integers, FiniteSets, TLC
RECURSIVE Peel(_, _, _)
Peel(S, k, W) == LET X == {v \in W : Cardinality(S[v] \cap W) < k} IN IF X = {} THEN W ELSE Peel(S, k, TLCEval(W \ X))
Core(S, k) == Peel(S, k, DOMAIN S)
(* by definition: the largest set in which everybody has k neighbors         *)
IsCore(S, k, W) == /\ \A v \in W : Cardinality(S[v] \cap W) >= k
                   /\ \A U \in SUBSET DOMAIN S : (\A v \in U : Cardinality(S[v] \cap U) >= k) => U \subseteq W
(* edges <<smaller, larger>> with an end outside W                           *)
Removed(S, W) == {e \in (DOMAIN S) \X (DOMAIN S) : e[1] < e[2] /\ e[2] \in S[e[1]] /\ (e[1] \notin W \/ e[2] \notin W)}
=============================================================================
