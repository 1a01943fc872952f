----------------------------- MODULE Independent -----------------------------
(* Independent sets and colourings.  S maps every vertex to the set of       *)
(* vertices stored in its row.                                               *)
EXTENDS Integers, FiniteSets, Sequences
Touch(S, u, v) == v \in S[u] \/ u \in S[v]
Independent(S, I) == \A u \in I : S[u] \cap I = {}
(* every vertex outside has a neighbor inside (either storage of the edge)   *)
Dominated(S, I) == LET Out == UNION {S[u] : u \in I} IN \A v \in DOMAIN S : v \in I \/ v \in Out \/ S[v] \cap I # {}
Maximal(S, I) == Independent(S, I) /\ Dominated(S, I)
Proper(S, col) == \A u \in DOMAIN S : \A v \in S[u] : col[u] # col[v]
=============================================================================
