------------------------------ MODULE Weighted ------------------------------
(* Shortest distances with positive weights.  E is a set of weighted edges   *)
(* <<u, v, w>>; distances are functions on the vertices, Inf where there is  *)
(* no path.                                                                  *)
EXTENDS Paths
WEdges(rows) == UNION {{<<u - 1>> \o rows[u][j] : j \in 1..Len(rows[u])} : u \in 1..Len(rows)}
Plus(a, w) == IF a = Inf THEN Inf ELSE a + w
Lt(a, b) == a # Inf /\ (b = Inf \/ a < b)
(* by definition: shortest among the walks with at most k edges *)
RECURSIVE Walks(_, _, _, _)
Walks(E, D, V, k) ==
  IF k = 0 THEN D
  ELSE LET P == Walks(E, D, V, k - 1)
           S(v) == {Plus(P[e[1]], e[3]) : e \in {x \in E : x[2] = v /\ P[x[1]] # Inf}} \cup (IF P[v] = Inf THEN {} ELSE {P[v]}) IN
       [v \in V |-> IF S(v) = {} THEN Inf ELSE SetMin(S(v))]
Dist(E, V, r) == Walks(E, [v \in V |-> IF v = r THEN 0 ELSE Inf], V, Cardinality(V) - 1)
(* a certificate for the same, one pass over the edges: no edge can improve a *)
(* distance and every distance but the source's is reached by an edge         *)
DistWhy(E, V, r, d) ==
  CASE d[r] # 0 -> "distance of the source"
    [] \E e \in E : d[e[1]] # Inf /\ d[e[2]] = Inf -> "a reachable vertex has no distance"
    [] \E e \in E : d[e[1]] # Inf /\ Lt(d[e[1]] + e[3], d[e[2]]) -> "longer than the shortest path"
    [] LET T == {e[2] : e \in {x \in E : d[x[1]] # Inf /\ d[x[2]] = d[x[1]] + x[3]}} IN \E v \in V \ {r} : d[v] # Inf /\ v \notin T -> "not the length of a path"
    [] OTHER -> ""
=============================================================================
