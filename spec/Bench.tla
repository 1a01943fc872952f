------------------------------- MODULE Bench -------------------------------
(* What the benchmark drivers (bench/) have to do with a Matrix Market file, *)
(* their options and their results.  f is a file as in MatrixMarket.         *)
EXTENDS MatrixMarket, Components, Triangles
(* ---- the graphs a file describes ---------------------------------------- *)
Dim(f) == MaxOf(f.rows, f.cols)
Directed(f) == ReadEntries(f, TRUE, 0, 1)
Listed(f) == ReadEntries(f, FALSE, 0, 1)
(* sets of neighbors *)
Out(f) == LET E == Directed(f) IN [u \in 0..(Dim(f) - 1) |-> {E[j][2] : j \in {k \in 1..Len(E) : E[k][1] = u}}]
Und(f) == LET E == Listed(f) IN
          [u \in 0..(Dim(f) - 1) |-> {E[j][2] : j \in {k \in 1..Len(E) : E[k][1] = u}} \cup {E[j][1] : j \in {k \in 1..Len(E) : E[k][2] = u}}]
(* ---- triangles: each edge once, from the lower to the higher vertex ----- *)
TriangleCount(S) == LET U == TLCEval([u \in DOMAIN S |-> {v \in S[u] : v > u}]) IN Count(U)
(* ---- sizes of the components, largest first ----------------------------- *)
RECURSIVE Sizes(_, _)
Sizes(S, R) == IF R = {} THEN <<>> ELSE LET C == Component(S, CHOOSE v \in R : TRUE) IN <<Cardinality(C)>> \o Sizes(S, R \ C)
Largest(S) == SortSeq(Sizes(S, DOMAIN S), LAMBDA x, y : x > y)
(* ---- sources ------------------------------------------------------------ *)
(* how often a vertex occurs as the neighbor in an adjacency keyed by idx    *)
Occurs(f, idx) == LET E == Keyed(Directed(f), idx) IN [v \in 0..(Dim(f) - 1) |-> Cardinality({j \in 1..Len(E) : E[j][2] = v})]
RandomWhy(f, idx, src, n) ==
  LET d == TLCEval(Occurs(f, idx)) IN
  CASE Len(src) # n -> "number of sources"
    [] \E j \in 1..n : src[j] \notin DOMAIN d -> "a source is a vertex"
    [] \E j \in 1..n : d[src[j]] = 0 -> "a source has an edge leading to it"
    [] OTHER -> ""
(* ---- combinations of options -------------------------------------------- *)
(* every thread count with every version, each `times` times                 *)
Combos(ids, threads, times) == FlattenSeq([a \in 1..Len(threads) |-> FlattenSeq([b \in 1..Len(ids) |-> [t \in 1..times |-> <<ids[b], threads[a]>>]])])
(* rows of a table: version, threads, smallest, mean, largest time in units  *)
TableWhy(ids, threads, rows) ==
  CASE Rng([j \in 1..Len(rows) |-> <<rows[j][1], rows[j][2]>>]) # Rng(ids) \X Rng(threads) -> "a combination is missing in the table"
    [] Len(rows) # Cardinality(Rng(ids)) * Cardinality(Rng(threads)) -> "a combination twice in the table"
    [] \E j \in 1..Len(rows) : ~(0 <= rows[j][3] /\ rows[j][3] <= rows[j][4] /\ rows[j][4] <= rows[j][5]) -> "smallest, mean and largest time"
    [] OTHER -> ""
(* times: samples of a configuration; lo, avg, hi: what is printed (in units) *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dist(a, b) == IF a > b THEN a - b ELSE b - a
StatsOk(times, lo, avg, hi) ==
  lo = SetMin(Rng(times)) /\ hi = SetMax(Rng(times)) /\ Dist(avg * Len(times), Sum(times)) <= Len(times)
=============================================================================
