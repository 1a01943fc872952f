------------------------------ MODULE Traverse ------------------------------
(* What the traversal ranges enumerate.                                      *)
EXTENDS Paths
NonDecreasing(S) == Asc(S)
(* breadth-first vertex order *)
VertexWhy(L, r, s) ==
  CASE ~ Distinct(s) -> "a vertex is visited twice"
    [] Rng(s) # Reached(L) -> "exactly the reachable vertices"
    [] s = <<>> \/ s[1] # r -> "starts at the seed"
    [] ~ Asc([j \in 1..Len(s) |-> L[s[j]]]) -> "order of non-decreasing distance"
    [] OTHER -> ""
(* breadth-first tree edges <<u, v, ...>>, all of them *)
TreeEdgesWhy(L, rows, s, whole) ==
  LET V == [j \in 1..Len(s) |-> s[j][2]] IN
  CASE ~ Distinct(V) -> "a vertex is discovered twice"
    [] \E j \in 1..Len(s) : SubSeq(s[j], 2, Len(s[j])) \notin {SubSeq(x, 1, Len(s[j]) - 1) : x \in Rng(rows[s[j][1] + 1])} -> "an edge of the graph with its attributes"
    [] \E j \in 1..Len(s) : L[s[j][2]] # L[s[j][1]] + 1 \/ L[s[j][1]] = Inf -> "one level further than its source"
    [] ~ Asc([j \in 1..Len(s) |-> L[s[j][2]]]) -> "order of non-decreasing distance"
    [] whole /\ Rng(V) # {v \in DOMAIN L : L[v] > 0} -> "one edge to every other reachable vertex"
    [] OTHER -> ""
Admits(x, a, b, m) == (x[1] * a + x[2] * b + x[3]) % m # 0     \* the filters the harness uses
Filtered(rows, a, b, m) == [u \in 1..Len(rows) |-> SelectSeq(rows[u], LAMBDA y : Admits(<<u - 1>> \o y, a, b, m))]
FilteredWhy(L, rows, r, t, s, found) ==
  LET why == TreeEdgesWhy(L, rows, s, FALSE)
      V == {s[j][2] : j \in 1..Len(s)} IN
  CASE why # "" -> why
    [] found # (L[t] # Inf) -> "the target is found exactly when it is reachable"
    [] ~ found /\ V # {v \in DOMAIN L : L[v] > 0} -> "everything reachable is visited before giving up"
    [] found /\ t # r /\ (s = <<>> \/ s[Len(s)][2] # t) -> "stops at the target"
    [] found /\ t = r /\ s # <<>> -> "nothing to do when the target is the source"
    [] found /\ ~ ({v \in DOMAIN L : L[v] > 0 /\ L[v] < L[t]} \subseteq V) -> "nearer vertices come first"
    [] OTHER -> ""
(* order of the edges of a directed acyclic graph: the edges into a vertex come before those out of it *)
DagWhy(E, s) ==
  LET P == [j \in 1..Len(s) |-> <<s[j][1], s[j][2]>>] IN
  CASE ~ SameBag(P, E) -> "every edge exactly once"
    [] \E j, k \in 1..Len(P) : P[j][2] = P[k][1] /\ j > k -> "the edges into a vertex come before those out of it"
    [] \E j \in 1..Len(s) : s[j][3] # ~ \E k \in (j + 1)..Len(P) : P[k][2] = P[j][2] -> "a vertex is ready with its last incoming edge"
    [] OTHER -> ""
RECURSIVE Follow(_, _, _)
Follow(pred, v, stop) == IF v = stop THEN <<>> ELSE <<v>> \o Follow(pred, pred[v + 1], stop)
WalkWhy(A, first, len, s) ==
  CASE Len(s) # len -> "length"
    [] len > 0 /\ s[1] # first -> "starts at the given vertex"
    [] \E j \in 1..(Len(s) - 1) : s[j + 1] \notin A[s[j]] -> "follows edges"
    [] OTHER -> ""
(* neighbor lists completed by a missing back edge for every edge *)
Missing(A, v) == {u \in DOMAIN A : v \in A[u] /\ u \notin A[v]}
=============================================================================
