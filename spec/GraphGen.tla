------------------------------ MODULE GraphGen ------------------------------
(* Enumerates (or, in simulation, samples) input graphs: a number of         *)
(* vertices and an edge list with weights.  Every state is emitted.          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MinN, MaxN,    \* declared numbers of vertices
          MaxM,          \* longest edge list
          Weights,       \* set of edge weights
          Simple,        \* edge sets in canonical order instead of edge sequences
          Loops,         \* self-loops allowed
          Half,          \* only edges u < v (undirected simple graphs)
          MinM           \* shortest edge list emitted
VARIABLES n, e
Init == n \in MinN..MaxN /\ e = <<>>
After(x, u, v) == IF ~Simple \/ x = <<>> THEN TRUE ELSE (LET y == x[Len(x)] IN y[1] < u \/ (y[1] = u /\ y[2] < v))
Next == /\ Len(e) < MaxM
        /\ \E u, v \in 0..(n - 1), w \in Weights :
             /\ Loops \/ u # v
             /\ Half => u <= v
             /\ After(e, u, v)
             /\ e' = Append(e, <<u, v, w>>)
        /\ n' = n
Spec == Init /\ [][Next]_<<n, e>>
Emit == Len(e) >= MinM => PrintT(<<"BEHAVIOUR", <<n>>, e>>)
=============================================================================
