-------------------------------- MODULE Paths --------------------------------
(* Reachability, breadth-first levels and breadth-first trees of a graph     *)
(* given by its successor sets A[v], v \in 0..n-1.                           *)
EXTENDS Graph
Succ(rows) == [v \in 0..(Len(rows) - 1) |-> {rows[v + 1][j][1] : j \in 1..Len(rows[v + 1])}]
Inf == -1
RECURSIVE Wave(_, _, _, _)
Wave(A, F, L, d) ==
  LET N == {v \in UNION {A[u] : u \in F} : L[v] = Inf} IN
  IF N = {} THEN L ELSE Wave(A, N, [v \in DOMAIN L |-> IF v \in N THEN d + 1 ELSE L[v]], d + 1)
(* number of edges of a shortest path from r, Inf where there is none *)
Levels(A, r) == Wave(A, {r}, [v \in DOMAIN A |-> IF v = r THEN 0 ELSE Inf], 0)
Reached(L) == {v \in DOMAIN L : L[v] # Inf}
(* parents p (Inf where there is none) form a shortest-path tree rooted at r *)
TreeWhy(A, L, r, p) ==
  CASE \E v \in DOMAIN L : (p[v] = Inf) # (L[v] = Inf) -> "reached vertices"
    [] p[r] # r -> "the root is its own parent"
    [] \E v \in Reached(L) \ {r} : p[v] \notin DOMAIN A \/ v \notin A[p[v]] -> "a parent has an edge to its child"
    [] \E v \in Reached(L) \ {r} : L[p[v]] # L[v] - 1 -> "a parent is one level closer to the root"
    [] OTHER -> ""
IsTree(A, L, r, p) == TreeWhy(A, L, r, p) = ""
=============================================================================
