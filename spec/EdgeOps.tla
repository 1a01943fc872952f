------------------------------ MODULE EdgeOps ------------------------------
(* The clean-up and renaming passes over an edge list or an adjacency,       *)
(* as relations between the content before and after.                        *)
EXTENDS Graph
Key(x, idx) == x[idx + 1]
LexLeq(x, y, idx) == x[idx + 1] < y[idx + 1] \/ (x[idx + 1] = y[idx + 1] /\ x[2 - idx] <= y[2 - idx])
SortedBy(E, idx) == \A j \in 1..(Len(E) - 1) : Key(E[j], idx) <= Key(E[j + 1], idx)
LexSorted(E, idx) == \A j \in 1..(Len(E) - 1) : LexLeq(E[j], E[j + 1], idx)
(* the elements of each class keep their order *)
SameOrder(E, F, K(_)) == \A k \in {K(E[j]) : j \in 1..Len(E)} : SelectSeq(E, LAMBDA x : K(x) = k) = SelectSeq(F, LAMBDA x : K(x) = k)

SortOK(E, F, idx) == SameBag(E, F) /\ SortedBy(F, idx)
StableOK(E, F, idx) == Len(E) = Len(F) /\ SortedBy(F, idx) /\ SameOrder(E, F, LAMBDA x : Key(x, idx))
LexOK(E, F, idx) == SameBag(E, F) /\ LexSorted(F, idx)
LexStableOK(E, F, idx) == Len(E) = Len(F) /\ LexSorted(F, idx) /\ SameOrder(E, F, LAMBDA x : <<x[1], x[2]>>)

(* one endpoint of every edge is brought to the requested side *)
Lower(idx, cessor) == (idx = 0) = (cessor = "predecessor")
Triangular(E, idx, cessor) ==
  [j \in 1..Len(E) |-> LET x == E[j] IN
     IF Lower(idx, cessor) THEN (IF x[1] < x[2] THEN Flip(x) ELSE x)
     ELSE (IF x[2] < x[1] THEN Flip(x) ELSE x)]
NoLoops(E) == SelectSeq(E, LAMBDA x : x[1] # x[2])
Uniq(E) == LET keep == SetToSortSeq({j \in 1..Len(E) : j = 1 \/ E[j][1] # E[j - 1][1] \/ E[j][2] # E[j - 1][2]}, <)
           IN [k \in 1..Len(keep) |-> E[keep[k]]]
(* vertex v is renamed to map[v + 1] *)
Rename(E, map) == [j \in 1..Len(E) |-> LET x == E[j] IN <<map[x[1] + 1], map[x[2] + 1]>> \o Tail2(x)]
RenameSide(E, map, idx) == [j \in 1..Len(E) |-> LET x == E[j] IN
     IF idx = 0 THEN <<map[x[1] + 1], x[2]>> \o Tail2(x) ELSE <<x[1], map[x[2] + 1]>> \o Tail2(x)]
InvPerm(p) == [v \in 1..Len(p) |-> CHOOSE k \in 0..(Len(p) - 1) : p[k + 1] = v - 1]
EdgeDegrees(E, n, idx, directed) == Degrees(n, Entries(E, idx, directed))
InOrder(S, direction) == IF direction = "ascending" THEN Asc(S) ELSE \A j \in 1..(Len(S) - 1) : S[j] >= S[j + 1]
(* p lists the vertices by degree *)
DegreeOrder(p, deg, direction) == IsPerm(p, Len(deg)) /\ InOrder([k \in 1..Len(p) |-> deg[p[k] + 1]], direction)
(* map sends each vertex to its place in a listing by degree *)
DegreeMap(map, deg, direction) == IsPerm(map, Len(deg)) /\ InOrder([k \in 1..Len(map) |-> deg[InvPerm(map)[k] + 1]], direction)

(* adjacency: rows *)
RowsKept(rows, P(_, _)) == [u \in 1..Len(rows) |-> SelectSeq(rows[u], LAMBDA x : P(x[1], u - 1))]
RowsMoved(rows, after, map) == Len(after) = Len(rows) /\ \A u \in 1..Len(rows) : after[map[u] + 1] = rows[u]
RowsRenamed(rows, after, map) ==
  /\ Len(after) = Len(rows)
  /\ \A u \in 1..Len(rows) :
       /\ SameBag([j \in 1..Len(rows[u]) |-> <<map[rows[u][j][1] + 1]>> \o Tail(rows[u][j])], after[u])
       /\ Asc(Firsts(after[u]))
=============================================================================
