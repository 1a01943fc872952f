----------------------------- MODULE TrianglesMC -----------------------------
(* Triangle counting on every small graph in both orientations: the work is  *)
(* divided among workers in cycles, in blocks of rows or in blocks of edges  *)
(* (rounded to rows); each worker intersects sorted neighbor lists with a    *)
(* merge loop, in full or only from the current edge on (upper orientation), *)
(* and adds its part to the shared total.  Whatever the order of the         *)
(* additions the total is the number of pairwise adjacent triples.           *)
EXTENDS Triangles, TLC
CONSTANTS N, Workers
V == 0..(N - 1)
VARIABLES S, upper, split, rest, n, todo, total
vars == <<S, upper, split, rest, n, todo, total>>
Sorted(u) == SetToSortSeq(S[u], LAMBDA a, b : a < b)
(* the merge loop from positions i and j *)
RECURSIVE Merge(_, _, _, _)
Merge(X, Y, i, j) ==
  IF i > Len(X) \/ j > Len(Y) THEN 0
  ELSE IF X[i] < Y[j] THEN Merge(X, Y, i + 1, j)
  ELSE IF Y[j] < X[i] THEN Merge(X, Y, i, j + 1)
  ELSE 1 + Merge(X, Y, i + 1, j + 1)
RECURSIVE RowSum(_, _)
RowSum(u, k) == LET X == Sorted(u) IN IF k > Len(X) THEN 0 ELSE Merge(X, Sorted(X[k]), IF rest THEN k ELSE 1, 1) + RowSum(u, k + 1)
(* rows of worker w *)
Small(x, y) == IF x < y THEN x ELSE y
BlockAt(m, w) == w * (m \div n) + Small(w, m % n)
Edges == SumOver(V, LAMBDA u : Cardinality(S[u]))
Before(u) == SumOver({x \in V : x < u}, LAMBDA x : Cardinality(S[x]))
Source(e) == CHOOSE u \in 0..N : (u = N \/ Before(u) <= e) /\ (u = N => e = Edges) /\ (u < N => e < Before(u) + Cardinality(S[u]) /\ e < Edges)
RowsOf(w) == CASE split = "cycle" -> {u \in V : u % n = w}
               [] split = "rows" -> {u \in V : BlockAt(N, w) <= u /\ u < BlockAt(N, w + 1)}
               [] split = "edges" -> {u \in V : Source(BlockAt(Edges, w)) <= u /\ u < Source(BlockAt(Edges, w + 1))}
Init == /\ \E E \in SUBSET {p \in V \X V : p[1] < p[2]} : \E up \in BOOLEAN :
             /\ upper = up /\ S = [u \in V |-> {v \in V : IF up THEN <<u, v>> \in E ELSE <<v, u>> \in E}]
        /\ n \in 1..Workers /\ split \in {"cycle", "rows", "edges"} /\ rest \in {r \in BOOLEAN : r => upper}
        /\ todo = 0..(n - 1) /\ total = 0
Work == \E w \in todo : todo' = todo \ {w} /\ total' = total + SumOver(RowsOf(w), LAMBDA u : RowSum(u, 1)) /\ UNCHANGED <<S, upper, split, rest, n>>
Next == Work
Spec == Init /\ [][Next]_vars
Exact == todo = {} => total = Cardinality(Triples(S)) /\ total = Count(S)
=============================================================================
