---------------------------- MODULE SpanningForest ----------------------------
(* Optimal spanning forests of weighted undirected graphs given by sequences *)
(* of edges <<u, v, w, ...>> on the vertices 0..n-1.                         *)
EXTENDS Graph, FiniteSetsExt, TLC
(* labels of the connected components, merged edge by edge; cnt counts the   *)
(* merges                                                                    *)
RECURSIVE MergeAll(_, _, _, _)
MergeAll(S, lab, cnt, j) ==
  IF j > Len(S) THEN <<lab, cnt>>
  ELSE LET a == lab[S[j][1]]  b == lab[S[j][2]] IN
       IF a = b THEN MergeAll(S, lab, cnt, j + 1)
       ELSE MergeAll(S, TLCEval([v \in DOMAIN lab |-> IF lab[v] = b THEN a ELSE lab[v]]), cnt + 1, j + 1)
Own(n) == [v \in 0..(n - 1) |-> v]
Acyclic(n, S) == MergeAll(S, Own(n), 0, 1)[2] = Len(S)
Comps(n, S) == LET l == MergeAll(S, Own(n), 0, 1)[1] IN {{v \in 0..(n - 1) : l[v] = x} : x \in {l[v] : v \in 0..(n - 1)}}
Weights(S) == {S[j][3] : j \in 1..Len(S)}
(* how many edges of each weight an optimal forest has: those of E that      *)
(* still join something after the better ones (max: the heavier ones)        *)
RECURSIVE Needed(_, _, _, _)
Needed(S, max, W, lab) ==
  IF W = {} THEN <<>>
  ELSE LET w == IF max THEN SetMax(W) ELSE SetMin(W)
           r == MergeAll(SelectSeq(S, LAMBDA e : e[3] = w), lab, 0, 1) IN
       (IF r[2] = 0 THEN <<>> ELSE <<<<w, r[2]>>>>) \o Needed(S, max, W \ {w}, r[1])
ForestWhy(n, E, max, T) ==
  CASE \E j \in 1..Len(T) : ~\E k \in 1..Len(E) : E[k] = T[j] -> "an edge of the forest is not in the graph"
    [] ~Distinct(T) /\ \E x \in Rng(T) : Num(T, x) > Num(E, x) -> "an edge used more often than the graph has it"
    [] ~Acyclic(n, T) -> "cycle"
    [] OTHER -> LET need == Needed(E, max, Weights(E), Own(n)) IN
                IF SumSeq([j \in 1..Len(need) |-> need[j][2]]) # Len(T) THEN "does not connect what the graph connects"
                ELSE IF \E j \in 1..Len(need) : Cardinality({k \in 1..Len(T) : T[k][3] = need[j][1]}) # need[j][2] THEN "weight is not optimal" ELSE ""
(* by definition *)
Total(T) == SumSeq([j \in 1..Len(T) |-> T[j][3]])
SubSeqOf(E, X) == LET s == SetToSortSeq(X, LAMBDA a, b : a < b) IN [j \in 1..Len(s) |-> E[s[j]]]
Forests(n, E) == {X \in SUBSET (1..Len(E)) : LET T == SubSeqOf(E, X) IN Acyclic(n, T) /\ Comps(n, T) = Comps(n, E)}
IsOptimal(n, E, max, X) == LET F == Forests(n, E) IN
  X \in F /\ \A Y \in F : IF max THEN Total(SubSeqOf(E, X)) >= Total(SubSeqOf(E, Y)) ELSE Total(SubSeqOf(E, X)) <= Total(SubSeqOf(E, Y))
=============================================================================
