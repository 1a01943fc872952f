------------------------------ MODULE KCoreMC ------------------------------
(* Peeling: vertices below k wait in a stack (served in any order here);     *)
(* taking one out removes its remaining edges one by one and lowers the      *)
(* degrees at their other ends.                                              *)
EXTENDS KCore
CONSTANTS N, MaxK
V == 0..(N - 1)
VARIABLES S, k, deg, removed, peel, n, cut, v, left
vars == <<S, k, deg, removed, peel, n, cut, v, left>>
Init == /\ \E F \in SUBSET {p \in V \X V : p[1] < p[2]} : S = [x \in V |-> {y \in V : <<x, y>> \in F \/ <<y, x>> \in F}]
        /\ k \in -1..MaxK
        /\ deg = [x \in V |-> Cardinality(S[x])]
        /\ removed = {x \in V : deg[x] < k} /\ peel = removed /\ n = N /\ cut = {} /\ v = -1 /\ left = {}
Pop == left = {} /\ \E x \in peel : v' = x /\ peel' = peel \ {x} /\ n' = n - 1 /\ left' = S[x] /\ UNCHANGED <<S, k, deg, removed, cut>>
Pair(x, y) == IF x < y THEN <<x, y>> ELSE <<y, x>>
Cut == \E w \in left : /\ left' = left \ {w}
         /\ (IF Pair(v, w) \in cut THEN UNCHANGED <<cut, deg, removed, peel>>
            ELSE /\ cut' = cut \cup {Pair(v, w)} /\ deg' = [deg EXCEPT ![w] = @ - 1]
                 /\ IF deg[w] - 1 < k /\ w \notin removed THEN removed' = removed \cup {w} /\ peel' = peel \cup {w} ELSE UNCHANGED <<removed, peel>>)
         /\ UNCHANGED <<S, k, n, v>>
Next == Pop \/ Cut
Spec == Init /\ [][Next]_vars
Sound == \A U \in SUBSET V : (\A x \in U : Cardinality(S[x] \cap U) >= k) => U \cap removed = {}
Counts == \A x \in V \ removed : deg[x] = Cardinality(S[x]) - Cardinality({e \in cut : e[1] = x \/ e[2] = x})
Result == peel = {} /\ left = {} => IsCore(S, k, V \ removed) /\ n = N - Cardinality(removed) /\ V \ removed = Core(S, k) /\ cut = Removed(S, V \ removed)
=============================================================================
