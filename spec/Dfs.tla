-------------------------------- MODULE Dfs --------------------------------
(* Depth-first search that explores neighbors in stored order, from the seed *)
(* and then from the unvisited vertices in ascending order. The state is the *)
(* path from the root to the vertex explored (vertices with unexplored       *)
(* neighbors) and the set of the vertices met.                               *)
EXTENDS Graph
(* A: rows of targets; first neighbor of v not met, as a position, or 0 *)
NextPos(A, v, met) == LET P == {j \in 1..Len(A[v + 1]) : A[v + 1][j] \notin met} IN IF P = {} THEN 0 ELSE SetMin(P)
Open(root) == [path |-> <<root>>, met |-> {root}]
Enter(d, w) == [path |-> Append(d.path, w), met |-> d.met \cup {w}]
Leave(d) == [d EXCEPT !.path = Front(@)]
RECURSIVE Down(_, _)     \* explore until a vertex is finished
Down(A, d) == LET v == Last(d.path)  j == NextPos(A, v, d.met) IN IF j = 0 THEN d ELSE Down(A, Enter(d, A[v + 1][j]))
RECURSIVE Up(_, _)       \* leave finished vertices
Up(A, d) == IF d.path = <<>> \/ NextPos(A, Last(d.path), d.met) # 0 THEN d ELSE Up(A, Leave(d))
Unmet(A, d) == 0..(Len(A) - 1) \ d.met
(* the next vertex to finish is the end of the path of Finishing *)
Finishing(A, d) == Down(A, IF d.path = <<>> THEN [path |-> <<SetMin(Unmet(A, d))>>, met |-> d.met \cup {SetMin(Unmet(A, d))}] ELSE d)
=============================================================================
