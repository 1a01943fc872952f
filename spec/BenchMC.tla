------------------------------- MODULE BenchMC -------------------------------
(* What the benchmark drivers do to a graph before they count, and how they  *)
(* choose sources.                                                           *)
(* Mode "clean": edges are relabeled (any permutation may result), turned    *)
(*   into one direction, sorted, made unique, rid of loops, and triangles    *)
(*   are counted edge by edge: the number and the components' sizes are      *)
(*   those of the graph described by the file.                               *)
(* Mode "sources": two threads count, edge by edge with atomic additions,    *)
(*   how often each vertex is a neighbor; then vertices are drawn until one  *)
(*   with a positive count comes up.                                         *)
EXTENDS Bench
CONSTANTS N, M, Mode
V == 0..(N - 1)
VARIABLES ents,      \* entries of the file, 1-based pairs
          el,        \* the edge list (0-based pairs); in mode "sources" the edges not yet counted
          pc, cnt, todo, deg, hand, src
vars == <<ents, el, pc, cnt, todo, deg, hand, src>>
File == [rows |-> N, cols |-> N, sym |-> "general", val |-> FALSE, ents |-> ents]
Pairs == {<<u + 1, v + 1>> : u \in V, v \in V}
Init ==
  /\ \E m \in 0..M : ents \in [1..m -> Pairs]
  /\ el = [j \in 1..Len(ents) |-> <<ents[j][1] - 1, ents[j][2] - 1>>]
  /\ Mode = "sources" => ents # <<>>
  /\ pc = IF Mode = "clean" THEN "relabel" ELSE "count"
  /\ cnt = 0 /\ todo = {} /\ deg = [v \in V |-> 0] /\ hand = <<{}, {}>> /\ src = -1
(* ---- clean -------------------------------------------------------------- *)
Perms == {p \in [V -> V] : \A u, v \in V : u # v => p[u] # p[v]}
Relabel == /\ pc = "relabel" /\ pc' = "swap"
           /\ \E p \in Perms : el' = [j \in 1..Len(el) |-> <<p[el[j][1]], p[el[j][2]]>>]
           /\ UNCHANGED <<ents, cnt, todo, deg, hand, src>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Swap == /\ pc = "swap" /\ pc' = "uniq"
        /\ \E up \in BOOLEAN :
             LET S == [j \in 1..Len(el) |-> IF (el[j][1] < el[j][2]) = up THEN el[j] ELSE <<el[j][2], el[j][1]>>] IN
             el' = SortSeq(S, Less)
        /\ UNCHANGED <<ents, cnt, todo, deg, hand, src>>
KeepIf(s, T(_)) == LET J == {j \in 1..Len(s) : T(j)} O == SetToSortSeq(J, <) IN [k \in 1..Cardinality(J) |-> s[O[k]]]
Uniq == /\ pc = "uniq" /\ pc' = "loops"
        /\ el' = KeepIf(el, LAMBDA j : j = 1 \/ el[j] # el[j - 1])
        /\ UNCHANGED <<ents, cnt, todo, deg, hand, src>>
Loops == /\ pc = "loops" /\ pc' = "triangles"
         /\ el' = KeepIf(el, LAMBDA j : el[j][1] # el[j][2])
         /\ todo' = 1..Len(el')
         /\ UNCHANGED <<ents, cnt, deg, hand, src>>
Row(u) == {el[j][2] : j \in {k \in 1..Len(el) : el[k][1] = u}}
(* an edge adds the common neighbors of its ends; edges in any order         *)
Tri == /\ pc = "triangles"
       /\ IF todo = {} THEN pc' = "done" /\ UNCHANGED <<cnt, todo>>
          ELSE LET j == CHOOSE k \in todo : TRUE IN
               cnt' = cnt + Cardinality(Row(el[j][1]) \cap Row(el[j][2])) /\ todo' = todo \ {j} /\ pc' = pc
       /\ UNCHANGED <<ents, el, deg, hand, src>>
(* ---- sources ------------------------------------------------------------ *)
Split == /\ pc = "count" /\ todo = {} /\ hand = <<{}, {}>> /\ \A v \in V : deg[v] = 0
         /\ \E A \in SUBSET (1..Len(el)) : hand' = <<A, (1..Len(el)) \ A>>
         /\ todo' = {0} /\ UNCHANGED <<ents, el, pc, cnt, deg, src>>
Add(t) == /\ pc = "count" /\ todo = {0}
          /\ \E j \in hand[t] : hand' = [hand EXCEPT ![t] = @ \ {j}] /\ deg' = [deg EXCEPT ![el[j][2]] = @ + 1]
          /\ UNCHANGED <<ents, el, pc, cnt, todo, src>>
Counted == /\ pc = "count" /\ todo = {0} /\ hand = <<{}, {}>> /\ pc' = "draw" /\ UNCHANGED <<ents, el, cnt, todo, deg, hand, src>>
Draw(v) == /\ pc = "draw" /\ (IF src = -1 THEN TRUE ELSE deg[src] = 0) /\ src' = v /\ UNCHANGED <<ents, el, pc, cnt, todo, deg, hand>>
Drawn == /\ pc = "draw" /\ src # -1 /\ deg[src] > 0 /\ pc' = "done" /\ UNCHANGED <<ents, el, cnt, todo, deg, hand, src>>
Next == Relabel \/ Swap \/ Uniq \/ Loops \/ Tri \/ Split \/ (\E t \in 1..2 : Add(t)) \/ Counted \/ (\E v \in V : Draw(v)) \/ Drawn
(* drawing is fair: every vertex comes up again and again                    *)
Spec == /\ Init /\ [][Next]_vars /\ WF_vars(Relabel \/ Swap \/ Uniq \/ Loops \/ Tri \/ Split \/ Counted \/ Drawn)
        /\ \A t \in 1..2 : WF_vars(Add(t)) /\ \A v \in V : SF_vars(Draw(v))
(* ------------------------------------------------------------------------- *)
Edges(S) == {{u, v} : <<u, v>> \in {<<a, b>> \in V \X V : b \in S[a] \/ a \in S[b]}}
Rows == [u \in V |-> Row(u)]
Triangles_ == Mode = "clean" /\ pc = "done" => cnt = TriangleCount(Und(File)) /\ cnt = Cardinality(Triples(Und(File)))
Simple_ == Mode = "clean" /\ pc = "triangles" => Cardinality(Edges(Rows)) = Len(el) /\ \A v \in V : v \notin Row(v)
Components_ == Mode = "clean" /\ pc # "count" => Largest(Sym(Rows)) = Largest(Und(File))
Degrees_ == Mode = "sources" /\ pc # "count" => deg = Occurs(File, 0)
Sources_ == Mode = "sources" /\ pc = "done" => RandomWhy(File, 0, <<src>>, 1) = ""
Terminates == <>(pc = "done")
=============================================================================
