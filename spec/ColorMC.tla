------------------------------- MODULE ColorMC -------------------------------
(* Colouring: a maximal independent set gets the first positive colour free  *)
(* among its neighbors' (old) colours, the others - in any order - the first *)
(* colour from 0 that no already coloured neighbor has.                      *)
EXTENDS Independent
CONSTANTS N
V == 0..(N - 1)
VARIABLES S, I, col, coloured
vars == <<S, I, col, coloured>>
Pairs == {p \in V \X V : p[1] < p[2]}
First(X, from) == CHOOSE k \in from..(from + N) : k \notin X /\ \A j \in from..(k - 1) : j \in X
Init == /\ \E F \in SUBSET Pairs : S = [x \in V |-> {y \in V : <<x, y>> \in F \/ <<y, x>> \in F}]
        /\ \E J \in SUBSET V : Maximal(S, J) /\ I = J
        /\ col = [x \in V |-> 0] /\ coloured = {}
Inside == \E x \in I \ coloured : col' = [col EXCEPT ![x] = First({col[y] : y \in S[x]}, 1)] /\ coloured' = coloured \cup {x} /\ UNCHANGED <<S, I>>
Outside == I \subseteq coloured /\ \E x \in V \ coloured : col' = [col EXCEPT ![x] = First({col[y] : y \in S[x] \cap coloured}, 0)] /\ coloured' = coloured \cup {x} /\ UNCHANGED <<S, I>>
Next == Inside \/ Outside
Spec == Init /\ [][Next]_vars
Good == coloured = V => Proper(S, col)
SoFar == \A x, y \in coloured : y \in S[x] => col[x] # col[y]
Few == coloured = V => \A x \in V : col[x] <= Cardinality(S[x]) + 1
=============================================================================
